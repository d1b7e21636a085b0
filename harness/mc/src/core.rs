//! Exploration runtime: parallel case execution, shared progress slots (to attribute crashes and hangs to the
//! case that was running), coverage counters.
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const ALL: u64 = u64::MAX;
#[inline]
pub const fn p(n: u32) -> u64 {
    1 << n
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub props: u64,
    pub msg: String,
}

pub type Word = u64;
pub const RING: usize = 8;
pub const WMAX: usize = 192;
pub const MAXT: usize = 64;

#[repr(C)]
pub struct Slot {
    /// Monotonic ms at which the current case began; 0 = idle.
    pub began: AtomicU64,
    pub n: AtomicU64,
    pub len: [AtomicU64; RING],
    pub words: [[AtomicU64; WMAX]; RING],
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Cx {
    pub prop: u32,
    pub tier: Tier,
    pub profile: &'static str,
    pub slots: *mut Slot,
    pub threads: usize,
    pub deadline: Instant,
    pub stop: AtomicBool,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub executions: AtomicU64,
    pub violation: Mutex<Option<(Vec<Word>, String)>>,
    pub cover: Mutex<BTreeMap<String, u64>>,
    pub notes: Mutex<Vec<String>>,
    pub samples: Mutex<Vec<Vec<Word>>>,
    pub truncated: AtomicBool,
    /// Foreign failures (tagged for other properties only), by message head.
    pub foreign: Mutex<BTreeMap<String, u64>>,
}
unsafe impl Sync for Cx {}

thread_local! {
    static TID: Cell<usize> = const { Cell::new(0) };
    static DEPTH: Cell<usize> = const { Cell::new(0) };
}

pub fn now_ms() -> u64 {
    let mut t = libc_timespec { s: 0, n: 0 };
    unsafe { clock_gettime(1, &mut t) };
    t.s as u64 * 1000 + t.n as u64 / 1_000_000 + 1
}
#[repr(C)]
struct libc_timespec {
    s: i64,
    n: i64,
}
extern "C" {
    fn clock_gettime(c: i32, t: *mut libc_timespec) -> i32;
}

pub fn pmsg(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "(non-text panic)".into()
    }
}

thread_local! {
    /// Location of the last panic on this thread (recorded by the hook).
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn last_panic_loc() -> String {
    LAST_PANIC.with(|l| l.borrow().clone())
}

impl Cx {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn stopped(&self) -> bool {
        if self.stop.load(Relaxed) {
            return true;
        }
        if Instant::now() > self.deadline {
            self.truncated.store(true, Relaxed);
            return true;
        }
        false
    }
    /// Runs one case: `f` performs it and returns the failures found.
    /// Returns true if it violated the property being checked.
    pub fn case(&self, words: &[Word], f: impl FnOnce() -> Vec<Fail>) -> bool {
        self.executions.fetch_add(1, Relaxed);
        let slot = unsafe { &*self.slots.add(TID.with(|t| t.get())) };
        let depth = DEPTH.with(|d| d.get());
        if depth == 0 {
            let n = slot.n.load(Relaxed);
            let r = (n % RING as u64) as usize;
            let l = words.len().min(WMAX);
            for i in 0..l {
                slot.words[r][i].store(words[i], Relaxed);
            }
            slot.len[r].store(l as u64, Relaxed);
            slot.n.store(n + 1, Relaxed);
            slot.began.store(now_ms(), Relaxed);
        }
        DEPTH.with(|d| d.set(depth + 1));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        DEPTH.with(|d| d.set(depth));
        if depth == 0 {
            slot.began.store(0, Relaxed);
        }
        let fails = match r {
            Ok(v) => v,
            Err(e) => vec![Fail { props: ALL, msg: format!("panic: {} at {}", pmsg(&*e), last_panic_loc()) }],
        };
        self.judge(words, fails)
    }
    pub fn judge(&self, words: &[Word], fails: Vec<Fail>) -> bool {
        let mut hit = false;
        for f in fails {
            if f.props & p(self.prop) != 0 {
                hit = true;
                let mut v = self.violation.lock().unwrap();
                if v.as_ref().map_or(true, |(w, _)| words.len() < w.len()) {
                    *v = Some((words.to_vec(), f.msg));
                }
                self.stop.store(true, Relaxed);
            } else {
                let head: String = f.msg.chars().take(60).collect();
                *self.foreign.lock().unwrap().entry(format!("{} [{:x}]", head, f.props)).or_insert(0) += 1;
            }
        }
        hit
    }
    pub fn count(&self, key: &str, n: u64) {
        *self.cover.lock().unwrap().entry(key.to_string()).or_insert(0) += n;
    }
    pub fn note(&self, s: String) {
        self.notes.lock().unwrap().push(s);
    }
    pub fn sample(&self, w: &[Word]) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 12 {
            s.push(w.to_vec());
        }
    }
    pub fn states(&self, n: u64) {
        self.states.fetch_add(n, Relaxed);
    }
    pub fn transitions(&self, n: u64) {
        self.transitions.fetch_add(n, Relaxed);
    }
    /// Runs `f(i)` for all i < n on the worker threads; stops early once a violation was found.
    pub fn par(&self, n: usize, f: impl Fn(usize) + Sync) {
        let next = AtomicUsize::new(0);
        let chunk = (n / (self.threads * 16)).clamp(1, 64);
        std::thread::scope(|s| {
            for t in 0..self.threads.min(n.max(1)) {
                let (next, f) = (&next, &f);
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(s, move || {
                        TID.with(|x| x.set(t));
                        loop {
                            let i = next.fetch_add(chunk, Relaxed);
                            if i >= n || self.stopped() {
                                break;
                            }
                            for j in i..(i + chunk).min(n) {
                                f(j);
                            }
                        }
                        mcbase::alloc::flush_quarantine();
                    })
                    .unwrap();
            }
        });
    }
}

/// Sharded set of 128-bit state keys.
pub struct Seen {
    shards: Vec<Mutex<std::collections::HashSet<u128, Build>>>,
}
#[derive(Clone, Default)]
pub struct Build;
pub struct IdHash(u64);
impl std::hash::Hasher for IdHash {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0; 8];
            x[..c.len()].copy_from_slice(c);
            self.0 ^= u64::from_le_bytes(x);
        }
    }
    fn write_u128(&mut self, i: u128) {
        self.0 = i as u64;
    }
}
impl std::hash::BuildHasher for Build {
    type Hasher = IdHash;
    fn build_hasher(&self) -> IdHash {
        IdHash(0)
    }
}
impl Seen {
    pub fn new() -> Seen {
        Seen { shards: (0..64).map(|_| Mutex::new(Default::default())).collect() }
    }
    pub fn insert(&self, k: u128) -> bool {
        self.shards[(k >> 122) as usize & 63].lock().unwrap().insert(k)
    }
    pub fn len(&self) -> usize {
        self.shards.iter().map(|s| s.lock().unwrap().len()).sum()
    }
}
#[derive(Clone)]
pub struct Key(u64, u64);
impl Key {
    pub fn new() -> Key {
        Key(0xcbf2_9ce4_8422_2325, 0x9E37_79B9_7F4A_7C15)
    }
    #[inline]
    pub fn add(&mut self, x: u64) {
        self.0 = (self.0 ^ x).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(29) ^ (x >> 32);
        self.0 = self.0.wrapping_mul(0xff51_afd7_ed55_8ccd);
        self.1 = (self.1.rotate_left(23) ^ x.wrapping_mul(0xC2B2_AE3D_27D4_EB4F)).wrapping_mul(0x1656_67B1_9E37_79F9);
        self.1 ^= self.1 >> 31;
    }
    pub fn get(&self) -> u128 {
        (self.0 as u128) << 64 | self.1 as u128
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn far() -> Instant {
    Instant::now() + Duration::from_secs(86400 * 30)
}
