//! A small property-based-testing engine in the style of Hypothesis: every generated case is a
//! pure function of a finite sequence of bounded integer choices.  Random generation draws the
//! choices from a seeded generator; replay feeds recorded choices back; shrinking edits the
//! recorded choices.  There is no other source of randomness in the harness.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- random source

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    // xoshiro256**
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n.is_power_of_two() {
            return self.next() & (n - 1);
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

// ---------------------------------------------------------------- choice source

enum Mode {
    Gen(Rng),
    Replay(Vec<u64>),
}

pub struct Src {
    mode: Mode,
    pos: usize,
    pub rec: Vec<u64>,
    labels: Vec<&'static str>,
    nontrivial: bool,
    notes: Option<Vec<String>>,
    pub stats: Vec<(&'static str, f64)>,
}

/// How one case ended.
#[derive(Clone, Debug)]
pub enum Bad {
    /// The case lies outside the property's domain (counted, never a pass).
    Discard,
    /// The property is broken.  `sig` identifies the failing site/input class exactly.
    Fail { msg: String, sig: String },
}
pub type R = Result<(), Bad>;

pub fn fail<T>(msg: String) -> Result<T, Bad> {
    Err(Bad::Fail { msg, sig: String::new() })
}
pub fn discard<T>() -> Result<T, Bad> {
    Err(Bad::Discard)
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return $crate::engine::fail(format!($($t)*)); } };
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { mode: Mode::Gen(Rng::new(seed)), pos: 0, rec: Vec::new(), labels: Vec::new(), nontrivial: false, notes: None, stats: Vec::new() }
    }
    pub fn replay(choices: &[u64], notes: bool) -> Src {
        Src {
            mode: Mode::Replay(choices.to_vec()),
            pos: 0,
            rec: Vec::new(),
            labels: Vec::new(),
            nontrivial: false,
            notes: if notes { Some(Vec::new()) } else { None },
            stats: Vec::new(),
        }
    }
    /// A choice in `0..n`; 0 is the simplest.
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match self.mode {
            Mode::Gen(ref mut g) => g.below(n),
            Mode::Replay(ref c) => c.get(self.pos).copied().unwrap_or(0).min(n - 1),
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    /// Inclusive range, simplest at `lo`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    /// Signed integer of absolute value at most `k`, simplest 0.
    pub fn int(&mut self, k: i64) -> i64 {
        let v = self.below(2 * k as u64 + 1) as i64;
        if v % 2 == 0 {
            v / 2
        } else {
            -(v + 1) / 2
        }
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// True with probability num/den; false is simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    /// Uniform in [0, 1) with 2^-53 resolution.
    pub fn unit(&mut self) -> f64 {
        self.below(1 << 53) as f64 / (1u64 << 53) as f64
    }
    /// Weighted index; index 0 simplest.
    pub fn pick(&mut self, weights: &[u64]) -> usize {
        let tot: u64 = weights.iter().sum();
        let mut v = self.below(tot);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= *w;
        }
        weights.len() - 1
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l);
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        if c {
            self.nontrivial = true;
        }
    }
    pub fn noting(&self) -> bool {
        self.notes.is_some()
    }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if PRINT.load(Ordering::Relaxed) {
            println!("  {}", f());
        } else if let Some(ref mut n) = self.notes {
            n.push(f());
        }
    }
    /// Record an observed ratio (used for calibration output only).
    #[inline]
    pub fn stat(&mut self, name: &'static str, v: f64) {
        if CALIBRATE.load(Ordering::Relaxed) {
            self.stats.push((name, v));
        }
    }
}

pub static CALIBRATE: AtomicBool = AtomicBool::new(false);
/// Print notes at once (single cases only): the input of a case that does not finish is still seen.
pub static PRINT: AtomicBool = AtomicBool::new(false);

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
}

/// Payload: the element type was asked for something it cannot do exactly -> discard.
pub struct Unsupported;
/// Payload: more element operations than the stated bound.
pub struct OverBudget;

#[inline(always)]
pub fn tick() {
    BUDGET.with(|b| {
        let v = b.get();
        if v == 0 {
            over_budget();
        }
        b.set(v - 1);
    });
}
#[cold]
fn over_budget() -> ! {
    BUDGET.with(|b| b.set(u64::MAX));
    panic::panic_any(OverBudget)
}
/// Run `f` with at most `n` element operations (counted element types only).  Returns the result
/// and the number of operations used.
pub fn with_budget<T, F: FnOnce() -> T>(n: u64, f: F) -> (T, u64) {
    BUDGET.with(|b| b.set(n));
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            BUDGET.with(|b| b.set(u64::MAX));
        }
    }
    let _r = Reset;
    let v = f();
    let left = BUDGET.with(|b| b.get());
    (v, n - left)
}

pub fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let p = info.payload();
        let msg = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        LAST_PANIC.with(|l| *l.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

/// True if the call panics (the library's way of refusing a request); Err holds its answer.
pub fn refuses<T, F: FnOnce() -> T>(f: F) -> Result<(), T> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Err(v),
        Err(e) => {
            if e.is::<Unsupported>() || e.is::<OverBudget>() {
                panic::resume_unwind(e)
            }
            Ok(())
        }
    }
}

fn classify(e: Box<dyn Any + Send>) -> Bad {
    if e.is::<Unsupported>() {
        Bad::Discard
    } else if e.is::<OverBudget>() {
        Bad::Fail { msg: "did not finish within its operation bound (does not terminate)".into(), sig: "budget".into() }
    } else {
        let m = LAST_PANIC.with(|l| l.borrow().clone());
        Bad::Fail { msg: format!("panicked on a valid request: {}", m), sig: "panic".into() }
    }
}

pub type CaseFn = fn(&mut Src) -> R;

pub fn run_case(f: CaseFn, src: &mut Src) -> R {
    match panic::catch_unwind(AssertUnwindSafe(|| f(src))) {
        Ok(r) => r,
        Err(e) => {
            BUDGET.with(|b| b.set(u64::MAX));
            Err(classify(e))
        }
    }
}

// ---------------------------------------------------------------- groups, properties

pub struct Group {
    pub name: &'static str,
    pub f: CaseFn,
    /// cases in the quick tier
    pub quick: u64,
    /// cases in the thorough tier
    pub thorough: u64,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub groups: Vec<Group>,
    pub assumptions: &'static [&'static str],
}

#[derive(Clone)]
pub struct Failure {
    pub group: &'static str,
    pub index: u64,
    pub choices: Vec<u64>,
    pub msg: String,
    pub notes: Vec<String>,
    pub shrunk_from: usize,
    pub shrink_tries: u64,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub discarded: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, (f64, u64)>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, u64>,
}

pub struct Known {
    pub property: String,
    pub sig: String,
    pub text: String,
}

fn hash(v: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &x in v {
        h = (h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 29;
    }
    h
}

pub fn case_seed(seed: u64, prop: &str, group: &str, i: u64) -> u64 {
    let mut h = seed ^ 0xA5A5_5A5A_0F0F_F0F0;
    let _ = splitmix(&mut h);
    for b in prop.bytes().chain(group.bytes()) {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    let mut x = h ^ i.wrapping_mul(0xD134_2543_DE82_EF95);
    splitmix(&mut x)
}

/// Keep at most this many case hashes per worker and group (a lower bound on distinct cases).
const MAX_DISTINCT: usize = 400_000;

pub struct Progress {
    pub cells: Vec<(AtomicU64, AtomicU64)>, // (case index + 1, start ms)
    pub t0: Instant,
}

pub fn run_group(
    prop: &Property,
    g: &Group,
    cases: u64,
    seed: u64,
    threads: usize,
    known: &[Known],
    tracker: Option<&str>,
    hang_s: u64,
) -> Result<(Stats, Option<Failure>), u64> {
    let next = Arc::new(AtomicU64::new(0));
    let best = Arc::new(AtomicU64::new(u64::MAX));
    let found: Arc<Mutex<Option<(u64, Vec<u64>, String)>>> = Arc::new(Mutex::new(None));
    let progress = Arc::new(Progress { cells: (0..threads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect(), t0: Instant::now() });
    let done = Arc::new(AtomicUsize::new(0));
    let total: Arc<Mutex<Stats>> = Arc::new(Mutex::new(Stats::default()));
    let (f, gname, id) = (g.f, g.name, prop.id);
    let known_sigs: Vec<String> = known.iter().filter(|k| k.property == id).map(|k| k.sig.clone()).collect();
    let chunk = (cases / (threads as u64 * 16)).clamp(1, 256);
    for t in 0..threads {
        let (next, best, found, progress, done, total) =
            (next.clone(), best.clone(), found.clone(), progress.clone(), done.clone(), total.clone());
        let known_sigs = known_sigs.clone();
        let track = tracker.map(|d| std::fs::File::create(format!("{}/{}.{}.{}", d, id, gname, t)).unwrap());
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                use std::os::unix::fs::FileExt;
                let mut st = Stats::default();
                'outer: loop {
                    let lo = next.fetch_add(chunk, Ordering::SeqCst);
                    if lo >= cases {
                        break;
                    }
                    for i in lo..(lo + chunk).min(cases) {
                        // A failure at a lower index wins: the reported case does not depend on timing.
                        if i > best.load(Ordering::SeqCst) {
                            break 'outer;
                        }
                        progress.cells[t].1.store(progress.t0.elapsed().as_millis() as u64, Ordering::Relaxed);
                        progress.cells[t].0.store(i + 1, Ordering::SeqCst);
                        if let Some(ref fl) = track {
                            let _ = fl.write_at(&(i + 1).to_le_bytes(), 0);
                        }
                        let mut src = Src::random(case_seed(seed, id, gname, i));
                        let r = run_case(f, &mut src);
                        st.evaluations += 1;
                        match r {
                            Ok(()) => {
                                for l in &src.labels {
                                    *st.labels.entry(l).or_insert(0) += 1;
                                }
                                if src.nontrivial {
                                    st.nontrivial += 1;
                                    if st.distinct.len() < MAX_DISTINCT {
                                        st.distinct.insert(hash(&src.rec));
                                    }
                                }
                                for &(n, v) in &src.stats {
                                    let e = st.maxima.entry(n).or_insert((f64::MIN, 0));
                                    if !(v <= e.0) {
                                        *e = (v, i);
                                    }
                                }
                            }
                            Err(Bad::Discard) => st.discarded += 1,
                            Err(Bad::Fail { msg, sig }) => {
                                if !sig.is_empty() && known_sigs.contains(&sig) {
                                    *st.known.entry(sig).or_insert(0) += 1;
                                    continue;
                                }
                                let mut b = found.lock().unwrap();
                                if b.as_ref().map_or(true, |x| i < x.0) {
                                    *b = Some((i, src.rec.clone(), msg));
                                    best.store(i, Ordering::SeqCst);
                                }
                                break 'outer;
                            }
                        }
                    }
                }
                progress.cells[t].0.store(0, Ordering::SeqCst);
                let mut tot = total.lock().unwrap();
                tot.evaluations += st.evaluations;
                tot.discarded += st.discarded;
                tot.nontrivial += st.nontrivial;
                tot.distinct.extend(st.distinct);
                for (k, v) in st.labels {
                    *tot.labels.entry(k).or_insert(0) += v;
                }
                for (k, v) in st.known {
                    *tot.known.entry(k).or_insert(0) += v;
                }
                for (k, v) in st.maxima {
                    let e = tot.maxima.entry(k).or_insert((f64::MIN, 0));
                    if !(v.0 <= e.0) {
                        *e = v;
                    }
                }
                drop(tot);
                done.fetch_add(1, Ordering::SeqCst);
            })
            .unwrap();
    }
    // Wait.  A case that makes no progress for hang_s seconds is "no answer" (an error), unless
    // another worker has already found a real failure.
    loop {
        if done.load(Ordering::SeqCst) == threads {
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
        let now = progress.t0.elapsed().as_millis() as u64;
        let mut stuck = None;
        let mut others_busy = false;
        for c in &progress.cells {
            let i = c.0.load(Ordering::SeqCst);
            if i != 0 {
                let start = c.1.load(Ordering::Relaxed);
                if now.saturating_sub(start) > hang_s * 1000 {
                    stuck = Some(i - 1);
                } else {
                    others_busy = true;
                }
            }
        }
        if let Some(i) = stuck {
            if found.lock().unwrap().is_some() {
                break;
            }
            if !others_busy || now > 4 * hang_s * 1000 {
                return Err(i);
            }
        }
    }
    let mut st = std::mem::take(&mut *total.lock().unwrap());
    let hit = found.lock().unwrap().take();
    let failure = hit.map(|(i, choices, msg)| {
        let n = choices.len();
        // Shrinking (and writing the case out) runs on its own thread with a deadline: a candidate
        // that never returns must not lose the failure already found.
        let slot = Arc::new(Mutex::new((choices.clone(), msg.clone(), 0u64, Vec::<String>::new(), false)));
        let sl = slot.clone();
        let ks = known_sigs.clone();
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                let (c, m, tries) = shrink(f, choices, msg, &ks, &|c, m, t| {
                    let mut g = sl.lock().unwrap();
                    g.0 = c.to_vec();
                    g.1 = m.to_string();
                    g.2 = t;
                });
                let mut s = Src::replay(&c, true);
                let _ = run_case(f, &mut s);
                *sl.lock().unwrap() = (c, m, tries, s.notes.unwrap_or_default(), true);
            })
            .unwrap();
        let t0 = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(5));
            let g = slot.lock().unwrap();
            if g.4 || t0.elapsed() > Duration::from_secs(35) {
                return Failure { group: gname, index: i, choices: g.0.clone(), msg: g.1.clone(), notes: g.3.clone(), shrunk_from: n, shrink_tries: g.2 };
            }
        }
    });
    if failure.is_none() {
        // Samples: a few cases of this run, written out.
        let mut i = 0;
        while st.samples.len() < 3 && i < cases.min(4000) {
            let sd = case_seed(seed, id, gname, i);
            i += 1;
            let mut s = Src::random(sd);
            s.notes = Some(Vec::new());
            if let Ok(()) = run_case(f, &mut s) {
                let text = s.notes.take().unwrap_or_default().join("; ");
                if s.nontrivial && !text.is_empty() && text.len() < 900 {
                    st.samples.push(format!("{}: {}", gname, text));
                }
            }
        }
    }
    Ok((st, failure))
}

// ---------------------------------------------------------------- shrinking

fn still_fails(f: CaseFn, c: &[u64], known: &[String]) -> Option<(Vec<u64>, String)> {
    let mut s = Src::replay(c, false);
    match run_case(f, &mut s) {
        Err(Bad::Fail { msg, sig }) if sig.is_empty() || !known.contains(&sig) => {
            let mut rec = s.rec;
            while rec.last() == Some(&0) {
                rec.pop();
            }
            Some((rec, msg))
        }
        _ => None,
    }
}

fn shrink(f: CaseFn, start: Vec<u64>, msg: String, known: &[String], best: &dyn Fn(&[u64], &str, u64)) -> (Vec<u64>, String, u64) {
    let t0 = Instant::now();
    let mut tries = 0u64;
    let mut cur = start;
    let mut curmsg = msg;
    let better = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    macro_rules! attempt {
        ($c:expr) => {{
            tries += 1;
            let c: Vec<u64> = $c;
            match still_fails(f, &c, known) {
                Some((rec, m)) if better(&rec, &cur) => {
                    cur = rec;
                    curmsg = m;
                    best(&cur, &curmsg, tries);
                    true
                }
                _ => false,
            }
        }};
    }
    let over = |tries: u64| tries > 20_000 || t0.elapsed() > Duration::from_secs(20);
    loop {
        let before = cur.clone();
        // delete spans
        let mut size = 32usize.min(cur.len().max(1));
        while size >= 1 {
            let mut i = 0;
            while i + size <= cur.len() {
                if over(tries) {
                    return (cur, curmsg, tries);
                }
                let mut c = cur.clone();
                c.drain(i..i + size);
                if !attempt!(c) {
                    i += 1;
                }
            }
            size /= 2;
        }
        // zero spans
        let mut size = 16usize.min(cur.len().max(1));
        while size >= 1 {
            let mut i = 0;
            while i + size <= cur.len() {
                if over(tries) {
                    return (cur, curmsg, tries);
                }
                if cur[i..i + size].iter().any(|&x| x != 0) {
                    let mut c = cur.clone();
                    for x in &mut c[i..i + size] {
                        *x = 0;
                    }
                    attempt!(c);
                }
                i += size;
            }
            size /= 2;
        }
        // lower single choices
        let mut i = 0;
        while i < cur.len() {
            if over(tries) {
                return (cur, curmsg, tries);
            }
            let (mut lo, mut hi) = (0u64, cur[i]);
            while lo < hi {
                let mid = lo + (hi - lo) / 2;
                let mut c = cur.clone();
                c[i] = mid;
                if attempt!(c) {
                    if i >= cur.len() {
                        break;
                    }
                    hi = cur[i].min(mid);
                } else {
                    lo = mid + 1;
                }
                if over(tries) {
                    break;
                }
            }
            // dropping one choice while lowering an earlier one (sizes)
            if i < cur.len() && cur[i] > 0 {
                for k in 1..6usize {
                    if i + 1 + k > cur.len() {
                        break;
                    }
                    let mut c = cur.clone();
                    c[i] -= 1;
                    c.drain(i + 1..i + 1 + k);
                    if attempt!(c) {
                        break;
                    }
                }
            }
            i += 1;
        }
        if cur == before {
            return (cur, curmsg, tries);
        }
    }
}

/// Replay one recorded case. Returns the verdict and its written-out notes.
pub fn replay(f: CaseFn, choices: &[u64]) -> (R, Vec<String>) {
    let mut s = Src::replay(choices, true);
    let r = run_case(f, &mut s);
    (r, s.notes.unwrap_or_default())
}

/// Choices of random case `i` without running the shrinker (used to confirm crashes).
pub fn choices_of(f: CaseFn, seed: u64, prop: &str, group: &str, i: u64) -> (R, Vec<u64>) {
    let mut s = Src::random(case_seed(seed, prop, group, i));
    let r = run_case(f, &mut s);
    (r, s.rec)
}
