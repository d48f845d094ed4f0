//! Generated-input engine: every random decision of a case is drawn from a `Src`, a recorded sequence of bounded
//! integers, so that any case can be replayed and shrunk. Cases are a pure function of (seed, property, arm, index).
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn hash_bytes(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325_u64 ^ bytes.len() as u64;
    for b in bytes {
        h = (h ^ *b as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix(h)
}
/// Source of all decisions of one case.
pub struct Src {
    state: u64,
    prefix: Vec<u64>,
    replay_only: bool,
    /// False for the sources of long arrays, which are determined by one recorded choice.
    record: bool,
    /// Choices are also written here, so that they are known if the case kills the process.
    pub trace: Option<std::fs::File>,
    pub rec: Vec<u64>,
}
impl Src {
    pub fn random(seed: u64, prefix: Vec<u64>) -> Self {
        Self { state: seed, prefix, replay_only: false, record: true, trace: None, rec: Vec::new() }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Self { state: 0, prefix: choices, replay_only: true, record: true, trace: None, rec: Vec::new() }
    }
    fn fork(&mut self) -> Self {
        let seed = mix(self.draw(u32::MAX as u64));
        Self { state: seed, prefix: Vec::new(), replay_only: false, record: false, trace: None, rec: Vec::new() }
    }
    /// An array of *n* items. Long ones are determined by a single recorded choice.
    pub fn array<T>(&mut self, n: usize, mut f: impl FnMut(&mut Src, usize) -> T) -> Vec<T> {
        if n <= 24 || !self.record {
            (0..n).map(|i| f(self, i)).collect()
        } else {
            let mut sub = self.fork();
            (0..n).map(|i| f(&mut sub, i)).collect()
        }
    }
    /// A value between 0 and *bound*, inclusive. 0 is the simplest.
    pub fn draw(&mut self, bound: u64) -> u64 {
        let pos = if self.record { self.rec.len() } else { 0 };
        let v = if pos < self.prefix.len() {
            self.prefix[pos].min(bound)
        } else if self.replay_only {
            0
        } else {
            self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let r = mix(self.state);
            if bound == u64::MAX {
                r
            } else {
                ((r as u128 * (bound as u128 + 1)) >> 64) as u64
            }
        };
        if self.record {
            self.rec.push(v);
            if let Some(t) = &mut self.trace {
                use std::io::Write;
                let _ = t.write_all(&v.to_le_bytes());
            }
        }
        v
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.draw(hi - lo)
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    /// True with probability num/den; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den - 1) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.draw(1) == 1
    }
    pub fn pick<T: Clone>(&mut self, items: &[T]) -> T {
        items[self.draw(items.len() as u64 - 1) as usize].clone()
    }
    /// An index chosen in proportion to *weights*; shrinks to 0.
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut v = self.draw(total - 1);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        0
    }
    /// A fraction between 0 and 1, inclusive, favouring the ends a little.
    pub fn unit(&mut self) -> f64 {
        match self.draw(15) {
            0 => 0.0,
            1 => 1.0,
            _ => self.draw(1 << 24) as f64 / (1u64 << 24) as f64,
        }
    }
    pub fn signed(&mut self) -> f64 {
        let v = self.unit();
        if self.bool() {
            -v
        } else {
            v
        }
    }
}
pub struct Ctx<'a> {
    pub labels: Vec<&'static str>,
    pub counts: Vec<(&'static str, u64)>,
    pub nontrivial: bool,
    pub want_desc: bool,
    pub desc: String,
    pub known_hits: Vec<(String, String)>,
    listed: &'a [Known],
    pub prop: &'static str,
}
impl<'a> Ctx<'a> {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }
    pub fn count(&mut self, l: &'static str, n: u64) {
        self.counts.push((l, n));
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            let mut s = f();
            if s.len() > 20_000 {
                let mut n = 20_000;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            if !self.desc.is_empty() {
                self.desc.push_str("\n");
            }
            self.desc.push_str(&s);
        }
    }
    /// Reports a deviation which matches the signature of the finding *id*: a violation unless that finding is listed.
    pub fn known(&mut self, id: &str, msg: String) -> Res {
        if self.listed.iter().any(|k| k.property == self.prop && k.id == id) {
            self.known_hits.push((id.to_owned(), msg));
            Ok(())
        } else {
            Err(format!("[{id}] {msg}"))
        }
    }
}
pub type Res = Result<(), String>;
pub type CaseFn = fn(&mut Src, &mut Ctx) -> Res;
pub struct Arm {
    pub name: &'static str,
    pub f: CaseFn,
    pub quick: u64,
    pub thorough: u64,
    /// The first decision enumerates 0..enumerate
    pub enumerate: u64,
}
impl Arm {
    pub const fn new(name: &'static str, f: CaseFn, quick: u64, thorough: u64) -> Self {
        Self { name, f, quick, thorough, enumerate: 0 }
    }
    pub const fn enumerated(name: &'static str, f: CaseFn, n: u64, quick: u64, thorough: u64) -> Self {
        Self { name, f, quick, thorough, enumerate: n }
    }
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub arms: &'static [Arm],
}
#[derive(Clone, Debug)]
pub struct Known {
    pub property: String,
    pub id: String,
    pub what: String,
}
pub fn read_known(path: &str) -> Vec<Known> {
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let mut res = Vec::new();
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("known: property=") {
            let mut it = rest.splitn(3, ' ');
            let property = it.next().unwrap_or("").to_owned();
            let id = it.next().unwrap_or("").trim_start_matches("id=").to_owned();
            let what = it.next().unwrap_or("").to_owned();
            res.push(Known { property, id, what });
        }
    }
    res
}
thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_owned()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_owned()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("panicked at {loc}: {msg}"));
    }));
}
/// Runs *f*, turning a panic into an error.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("{what} {}", PANIC_MSG.with(|p| p.borrow().clone())))
}
/// When the running cases began, in milliseconds (0: none)
static RUNNING: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
fn now_ms() -> u64 {
    static START: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
    START.get_or_init(std::time::Instant::now).elapsed().as_millis() as u64 + 1
}
fn begin_case() -> usize {
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    thread_local! {
        static MINE: usize = NEXT.fetch_add(1, Ordering::SeqCst) % 64;
    }
    let at = MINE.with(|m| *m);
    RUNNING[at].store(now_ms(), Ordering::SeqCst);
    at
}
/// Aborts the process if a single case runs for *limit_s* seconds; the supervisor then looks for the case.
pub fn watch_for_hangs(limit_s: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let now = now_ms();
        if RUNNING.iter().any(|r| {
            let b = r.load(Ordering::SeqCst);
            b > 0 && now.saturating_sub(b) > limit_s * 1000
        }) {
            eprintln!("a case does not end");
            std::process::abort();
        }
    });
}
const WEARS: u64 = 0xFFFF_FFFF;
pub fn run_case<'a>(prop: &'static str, f: CaseFn, src: &mut Src, listed: &'a [Known], want_desc: bool) -> (Res, Ctx<'a>) {
    let mut ctx = Ctx {
        labels: Vec::new(),
        counts: Vec::new(),
        nontrivial: false,
        want_desc,
        desc: String::new(),
        known_hits: Vec::new(),
        listed,
        prop,
    };
    let at = begin_case();
    // How the meshes of this case come about
    crate::model::set_wear(src.draw(WEARS));
    let res = match catch_unwind(AssertUnwindSafe(|| f(src, &mut ctx))) {
        Ok(r) => r,
        Err(_) => Err(PANIC_MSG.with(|p| p.borrow().clone())),
    };
    RUNNING[at].store(0, Ordering::SeqCst);
    (res, ctx)
}
pub fn case_src(seed: u64, prop: &str, arm: &Arm, arm_i: usize, i: u64) -> Src {
    let s = mix(mix(mix(seed) ^ hash_bytes(prop.as_bytes())) ^ mix((arm_i as u64) << 40 ^ i));
    // Half of the meshes are made at once
    let mut prefix = vec![if s & 1 == 0 { 0 } else { s >> 8 & WEARS }];
    if arm.enumerate > 0 {
        prefix.push(i % arm.enumerate);
    }
    Src::random(s, prefix)
}
#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub keys: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub known: BTreeMap<String, (u64, String)>,
    pub samples: BTreeMap<(usize, u64), String>,
}
impl Stats {
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.nontrivial += o.nontrivial;
        self.keys.extend(o.keys);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        for (k, v) in o.known {
            let e = self.known.entry(k).or_insert((0, v.1));
            e.0 += v.0;
        }
        self.samples.extend(o.samples);
    }
}
pub struct Failure {
    pub arm: usize,
    pub index: u64,
    pub choices: Vec<u64>,
    pub msg: String,
}
/// Runs all cases of *prop* and returns statistics and the first failure, if any.
pub fn run_prop(
    prop: &'static Prop,
    seed: u64,
    thorough: bool,
    scale: f64,
    threads: usize,
    listed: &[Known],
    slots: Option<&std::fs::File>,
) -> (Stats, Option<Failure>) {
    let mut total = Stats::default();
    for (arm_i, arm) in prop.arms.iter().enumerate() {
        let n = if thorough { arm.thorough } else { arm.quick };
        let n = ((n as f64 * scale) as u64).max(1);
        let next = AtomicU64::new(0);
        let min_fail = AtomicU64::new(u64::MAX);
        let failure: Mutex<Option<Failure>> = Mutex::new(None);
        let stats: Mutex<Stats> = Mutex::new(Stats::default());
        let tid = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..threads {
                s.spawn(|| {
                    let me = tid.fetch_add(1, Ordering::SeqCst);
                    let mut st = Stats::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n || i > min_fail.load(Ordering::SeqCst) {
                            break;
                        }
                        if let Some(f) = slots {
                            use std::os::unix::fs::FileExt;
                            let mut b = [0u8; 16];
                            b[..8].copy_from_slice(&(arm_i as u64 + 1).to_le_bytes());
                            b[8..].copy_from_slice(&i.to_le_bytes());
                            let _ = f.write_at(&b, me as u64 * 16);
                        }
                        let mut src = case_src(seed, prop.id, arm, arm_i, i);
                        let want = i < 2;
                        let (res, ctx) = run_case(prop.id, arm.f, &mut src, listed, want);
                        st.evaluations += 1;
                        for l in &ctx.labels {
                            *st.labels.entry(format!("{}:{}", arm.name, l)).or_default() += 1;
                        }
                        for (l, c) in &ctx.counts {
                            *st.labels.entry(format!("{}:{}", arm.name, l)).or_default() += c;
                        }
                        if ctx.nontrivial {
                            st.nontrivial += 1;
                            let mut h = arm_i as u64;
                            for c in &src.rec {
                                h = mix(h ^ *c);
                            }
                            st.keys.insert(h);
                        }
                        for (id, m) in &ctx.known_hits {
                            let e = st.known.entry(id.clone()).or_insert((0, m.clone()));
                            e.0 += 1;
                        }
                        if want {
                            let mut d = ctx.desc;
                            if d.len() > 1500 {
                                let mut n = 1500;
                                while !d.is_char_boundary(n) {
                                    n -= 1;
                                }
                                d.truncate(n);
                                d.push_str("...");
                            }
                            st.samples.insert((arm_i, i), format!("{} #{i}: {d}", arm.name));
                        }
                        if let Err(msg) = res {
                            min_fail.fetch_min(i, Ordering::SeqCst);
                            let mut f = failure.lock().unwrap();
                            if f.as_ref().map_or(true, |f| f.index > i) {
                                *f = Some(Failure { arm: arm_i, index: i, choices: src.rec, msg });
                            }
                        }
                    }
                    if let Some(f) = slots {
                        use std::os::unix::fs::FileExt;
                        let _ = f.write_at(&[0u8; 16], me as u64 * 16);
                    }
                    stats.lock().unwrap().merge(st);
                });
            }
        });
        total.merge(stats.into_inner().unwrap());
        if let Some(f) = failure.into_inner().unwrap() {
            return (total, Some(f));
        }
    }
    (total, None)
}
/// Shrinks a failing sequence of choices; *fails* replays one and says whether it still fails (and what was consumed).
pub fn shrink(start: Vec<u64>, budget: usize, mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let mut best = start;
    let mut left = budget;
    let begin = std::time::Instant::now();
    let mut attempt = |cand: &[u64], best: &mut Vec<u64>, left: &mut usize| -> bool {
        if *left == 0 || begin.elapsed().as_secs() > 60 {
            *left = 0;
            return false;
        }
        *left -= 1;
        if let Some(used) = fails(cand) {
            let better = used.len() < best.len() || (used.len() == best.len() && used < *best);
            if better {
                *best = used;
            }
            better
        } else {
            false
        }
    };
    loop {
        let before = best.clone();
        // Delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut at = best.len().saturating_sub(size);
            loop {
                if left == 0 {
                    return best;
                }
                if at + size <= best.len() {
                    let mut cand = best.clone();
                    cand.drain(at..at + size);
                    if attempt(&cand, &mut best, &mut left) {
                        at = at.min(best.len());
                    }
                }
                if at == 0 {
                    break;
                }
                at = at.saturating_sub(size);
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Zero chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut at = 0;
            while at < best.len() {
                if left == 0 {
                    return best;
                }
                let end = (at + size).min(best.len());
                if best[at..end].iter().any(|v| *v != 0) {
                    let mut cand = best.clone();
                    cand[at..end].iter_mut().for_each(|v| *v = 0);
                    attempt(&cand, &mut best, &mut left);
                }
                at += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Minimise values
        let mut at = 0;
        while at < best.len() {
            let mut lo = 0;
            while at < best.len() && lo < best[at] {
                if left == 0 {
                    return best;
                }
                let mid = lo + (best[at] - lo) / 2;
                let mut cand = best.clone();
                cand[at] = mid;
                if !attempt(&cand, &mut best, &mut left) {
                    lo = mid + 1;
                }
            }
            at += 1;
        }
        if best == before || left == 0 {
            return best;
        }
    }
}
pub fn json_str(s: &str) -> String {
    let mut r = String::with_capacity(s.len() + 2);
    r.push('"');
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
