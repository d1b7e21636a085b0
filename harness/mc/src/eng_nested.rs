//! P27 (and P24): operations on one registry that run *inside* operations on another one: at every machine instruction
//! of the outer operation (as another thread may do), inside predicates, and inside destructors. Each registry must
//! behave as it does alone. Also reads of the registry that is being iterated, from inside the predicate.
use crate::core::*;
use crate::forks::*;
use crate::props::*;
use crate::sys;
use mcbase::alloc::{self, lib};
use shard_ecs::{Component, ComponentTypeId, Entity, Registry};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::Duration;

pub fn engines() -> Vec<Eng> {
    vec![Eng { code: CODE, explore, run, show }]
}
pub fn engines_read() -> Vec<Eng> {
    vec![Eng { code: CODE_READ, explore: explore_read, run: run_read, show: show_read }]
}
const CODE: Word = 1043;
const CODE_READ: Word = 1044;

// ---------------------------------------------------------------- components without any shared bookkeeping

pub struct Na(u32);
pub struct Nb(u64, u64, u8);
pub struct Nz;
impl Component for Na {
    const NAME: &'static str = "Na";
    const ID: ComponentTypeId = ComponentTypeId::from_u16(5);
}
impl Component for Nb {
    const NAME: &'static str = "Nb";
    const ID: ComponentTypeId = ComponentTypeId::from_u16(40_000);
}
impl Component for Nz {
    const NAME: &'static str = "Nz";
    const ID: ComponentTypeId = ComponentTypeId::from_u16(3);
}
static DROPS: [AtomicU64; 4] = [const { AtomicU64::new(0) }; 4];
thread_local! {
    /// What destructors of the outer registry's values and predicates do.
    static HOOK: Cell<u64> = const { Cell::new(0) };
    static INNER: Cell<*mut Inner> = const { Cell::new(std::ptr::null_mut()) };
}
impl Drop for Nb {
    fn drop(&mut self) {
        let t = (self.0 & 3) as usize;
        DROPS[t].fetch_add(mix(self.0, self.1), Relaxed);
        if self.1 != !self.0 || self.2 != self.0 as u8 {
            DROPS[t].fetch_add(0x0bad_0bad, Relaxed);
        }
        if t == 0 && HOOK.with(|h| h.get()) & 1 != 0 {
            alloc::user(|| unsafe { (*INNER.with(|i| i.get())).next() });
        }
    }
}
fn mix(h: u64, x: u64) -> u64 {
    (h ^ x).wrapping_mul(0xff51_afd7_ed55_8ccd).rotate_left(31)
}

// ---------------------------------------------------------------- operations

const NAMES: [&str; 14] = ["create(Na)", "create(Nb,Na)", "create(Nz,Na,Nb)", "destroy", "add_component::<Nb>", "add_component::<Nz>", "remove_component::<Na>", "remove_entity::<(Na,Nb)>", "lookups", "iter_entity_components_matching_mut::<Na>", "iter_filtered_entity_components_matching::<(Nb,Na)>", "iter_components_exact, iter_components_exact_mut", "drop the registry, make a new one", "iter_filtered_components_matching_mut::<Na>"];
fn op(o: u64, k: u64) -> Word {
    o | k << 8
}
fn opname(w: &Word) -> String {
    let (o, k) = (w & 0xff, w >> 8);
    match o {
        3..=8 => format!("{}(e{k})", NAMES[o as usize]),
        _ => NAMES[o as usize].into(),
    }
}
fn alphabet() -> Vec<Word> {
    let mut v = vec![op(0, 0), op(1, 0), op(2, 0)];
    for o in 3..=8 {
        v.push(op(o, 0));
    }
    v.extend([op(3, 1), op(4, 1), op(9, 0), op(10, 0), op(11, 0), op(12, 0), op(13, 0)]);
    v
}
fn valid(h: &[Word]) -> bool {
    let mut n = 0;
    for w in h {
        match w & 0xff {
            0..=2 => n += 1,
            3..=8 if w >> 8 >= n => return false,
            12 => n = 0,
            _ => {}
        }
    }
    true
}
struct M {
    r: Option<Registry>,
    h: [Entity; 64],
    n: usize,
    tag: u64,
    ctr: u64,
}
impl M {
    fn new(tag: u64) -> M {
        DROPS[tag as usize].store(0, Relaxed);
        M { r: Some(lib(Registry::default)), h: [Entity::INVALID; 64], n: 0, tag, ctr: 0 }
    }
    fn a(&mut self) -> Na {
        self.ctr += 1;
        Na((self.ctr * 4 + self.tag) as u32)
    }
    fn b(&mut self) -> Nb {
        self.ctr += 1;
        let t = self.ctr * 4 + self.tag;
        Nb(t, !t, t as u8)
    }
    fn made(&mut self, e: Option<Entity>) -> u64 {
        match e {
            Some(e) => {
                if self.n < 64 {
                    self.h[self.n] = e;
                    self.n += 1;
                }
                e.raw() as u64
            }
            None => !0,
        }
    }
    #[inline(never)]
    fn apply(&mut self, w: Word) -> u64 {
        let e = self.h[(w >> 8) as usize % 64];
        let hb = |h: u64, b: &Nb| mix(mix(mix(h, b.0), b.1), b.2 as u64);
        let tag = self.tag;
        match w & 0xff {
            0 => {
                let a = self.a();
                let r = self.r.as_mut().unwrap();
                let x = lib(|| r.create_entity(a)).ok();
                self.made(x)
            }
            1 => {
                let g = (self.b(), self.a());
                let r = self.r.as_mut().unwrap();
                let x = lib(|| r.create_entity(g)).ok();
                self.made(x)
            }
            2 => {
                let g = (Nz, self.a(), self.b());
                let r = self.r.as_mut().unwrap();
                let x = lib(|| r.create_entity(g)).ok();
                self.made(x)
            }
            3 => {
                let r = self.r.as_mut().unwrap();
                lib(|| r.destroy_entity(e)) as u64
            }
            4 => {
                let b = self.b();
                let r = self.r.as_mut().unwrap();
                match lib(|| r.add_component(e, b)) {
                    Ok(()) => 1,
                    Err(b) => hb(2, &b),
                }
            }
            5 => {
                let r = self.r.as_mut().unwrap();
                lib(|| r.add_component(e, Nz)).is_ok() as u64
            }
            6 => {
                let r = self.r.as_mut().unwrap();
                match lib(|| r.remove_component::<Na>(e)) {
                    Ok(a) => mix(3, a.0 as u64),
                    Err(()) => 1,
                }
            }
            7 => {
                let r = self.r.as_mut().unwrap();
                match lib(|| r.remove_entity::<(Na, Nb)>(e)) {
                    Some((a, b)) => hb(mix(5, a.0 as u64), &b),
                    None => 1,
                }
            }
            8 => {
                let r = self.r.as_ref().unwrap();
                let mut h = lib(|| r.get_component::<Na>(e)).map_or(1, |a| a.0 as u64);
                h = mix(h, lib(|| r.get_components::<(Nb, Na)>(e)).map_or(2, |(b, a)| hb(a.0 as u64, b)));
                h = mix(h, lib(|| r.has_component::<Nz>(e)) as u64);
                h = mix(h, lib(|| r.has_components::<(Nz, Nb)>(e)) as u64);
                let m = self.r.as_mut().unwrap();
                if let Some(a) = lib(|| m.get_component_mut::<Na>(e)) {
                    a.0 ^= 0x4000;
                }
                h
            }
            9 => {
                let r = self.r.as_mut().unwrap();
                let mut h = 13;
                let mut it = lib(|| r.iter_entity_components_matching_mut::<Na>());
                while let Some((es, cs)) = lib(|| it.next()) {
                    for (e, c) in es.iter().zip(cs) {
                        h = mix(mix(h, e.raw() as u64), c.0 as u64);
                        c.0 ^= 0x8000;
                    }
                }
                h
            }
            10 => {
                let r = self.r.as_ref().unwrap();
                let mut h = 17;
                let mut it = lib(|| r.iter_filtered_entity_components_matching::<(Nb, Na), _>(|d| hooked(tag, d.len() == 2)));
                while let Some((es, (bs, cs))) = lib(|| it.next()) {
                    for i in 0..es.len() {
                        h = mix(hb(mix(h, es[i].raw() as u64), &bs[i]), cs[i].0 as u64);
                    }
                }
                h
            }
            11 => {
                let r = self.r.as_mut().unwrap();
                let mut h = 19;
                let (a, b) = lib(|| r.iter_components_exact::<(Na, Nb)>());
                for i in 0..a.len() {
                    h = hb(mix(h, a[i].0 as u64), &b[i]);
                }
                let (b, z, a) = lib(|| r.iter_components_exact_mut::<(Nb, Nz, Na)>());
                for i in 0..a.len() {
                    h = mix(hb(mix(h, a[i].0 as u64), &b[i]), z.len() as u64);
                    a[i].0 ^= 0x2000;
                }
                h
            }
            13 => {
                let r = self.r.as_mut().unwrap();
                let mut h = 23;
                let mut it = lib(|| r.iter_filtered_components_matching_mut::<Na, _>(|d| hooked(tag, d.has_component::<Nb>())));
                while let Some(cs) = lib(|| it.next()) {
                    for c in cs {
                        h = mix(h, c.0 as u64);
                        c.0 ^= 0x1000;
                    }
                }
                h
            }
            _ => {
                let r = self.r.take();
                lib(|| drop(r));
                self.r = Some(lib(Registry::default));
                self.n = 0;
                DROPS[self.tag as usize].load(Relaxed)
            }
        }
    }
    /// Everything that can be seen.
    fn view(&mut self) -> u64 {
        let tag = self.tag;
        let mut h = mix(29, DROPS[tag as usize].load(Relaxed));
        {
            let r = self.r.as_ref().unwrap();
            let mut it = lib(|| r.iter_entities());
            while let Some(e) = lib(|| it.next()) {
                h = mix(h, e.raw() as u64);
            }
            let mut it = lib(|| r.iter_entity_components_matching::<Nb>());
            while let Some((es, bs)) = lib(|| it.next()) {
                for (e, b) in es.iter().zip(bs) {
                    h = mix(mix(mix(mix(h, e.raw() as u64), b.0), b.1), b.2 as u64);
                }
            }
            let mut it = lib(|| r.iter_entity_components_matching::<Nz>());
            while let Some((es, _)) = lib(|| it.next()) {
                for e in es {
                    h = mix(h, e.raw() as u64);
                }
            }
        }
        for o in [op(9, 0), op(8, 0), op(8, 1), op(11, 0)] {
            h = mix(h, self.apply(o));
        }
        h
    }
}
/// Called by predicates of registry `tag`.
fn hooked(tag: u64, answer: bool) -> bool {
    if tag == 0 && HOOK.with(|h| h.get()) & 2 != 0 {
        alloc::user(|| unsafe { (*INNER.with(|i| i.get())).next() });
    }
    answer
}

/// What runs inside.
struct Inner {
    /// The registry that lives along with the outer one.
    along: M,
    hist: Vec<Word>,
    /// Operations done on it so far.
    done: u64,
    hash: u64,
    /// A whole history on a fresh registry, and its result.
    fresh: Vec<Word>,
    expect: u64,
    bad: u64,
    runs: u64,
    /// 1: the next operation on the registry that lives along; 2: a fresh registry; 3: both.
    mode: u64,
}
const LONG: u64 = 60;
fn fresh_run(h: &[Word]) -> u64 {
    let mut m = M::new(2);
    let mut x = 31;
    for o in h {
        x = mix(x, m.apply(*o));
    }
    x = mix(x, m.view());
    let r = m.r.take();
    lib(|| drop(r));
    mix(x, DROPS[2].load(Relaxed))
}
impl Inner {
    fn new(which: usize, mode: u64) -> Inner {
        let (a, f) = inner_hists(which);
        let expect = fresh_run(&f);
        Inner { along: M::new(1), hist: a, done: 0, hash: 37, fresh: f, expect, bad: 0, runs: 0, mode }
    }
    fn step(&mut self) {
        // every 60 operations a new registry, so that the table of handles suffices
        let w = if self.done % LONG == LONG - 1 { op(12, 0) } else { self.hist[(self.done % LONG) as usize % self.hist.len()] };
        let x = self.along.apply(w);
        self.hash = mix(self.hash, x);
        self.done += 1;
    }
    fn next(&mut self) {
        self.runs += 1;
        if self.mode & 1 != 0 {
            self.step();
        }
        if self.mode & 2 != 0 && fresh_run(&self.fresh) != self.expect && self.bad == 0 {
            self.bad = self.runs;
        }
    }
    /// The same operations on the registry that lived along, alone.
    fn check(&mut self, which: usize) -> Option<String> {
        if self.bad != 0 {
            return Some(format!("a history on another, fresh registry run inside (the {}th time) has other results than alone", self.bad));
        }
        let mine = mix(self.hash, self.along.view());
        let mut o = Inner::new(which, 0);
        for _ in 0..self.done {
            o.step();
        }
        let alone = mix(o.hash, o.along.view());
        if mine != alone {
            return Some(format!("the other registry, whose {} operations ran inside, behaved differently than alone", self.done));
        }
        None
    }
}
fn inner_hists(which: usize) -> (Vec<Word>, Vec<Word>) {
    match which {
        0 => (
            vec![op(2, 0), op(1, 0), op(4, 0), op(6, 1), op(0, 0), op(4, 2), op(10, 0), op(3, 0), op(9, 0), op(5, 2), op(7, 1), op(2, 0), op(13, 0), op(11, 0), op(8, 2)],
            vec![op(1, 0), op(2, 0), op(6, 0), op(5, 0), op(3, 1)],
        ),
        _ => (
            vec![op(0, 0), op(8, 0), op(5, 0), op(4, 0), op(9, 0), op(6, 0), op(3, 0), op(2, 0), op(2, 0), op(3, 1), op(11, 0)],
            vec![op(0, 0), op(4, 0), op(7, 0), op(2, 0), op(10, 0), op(13, 0)],
        ),
    }
}

// ---------------------------------------------------------------- preemption

const OFF: u64 = 0;
const EVERY: u64 = 1;
const ONCE: u64 = 2;
struct Ctx {
    mode: u64,
    steps: u64,
    at: u64,
    inner: *mut Inner,
}
static mut CTX: Ctx = Ctx { mode: OFF, steps: 0, at: 0, inner: std::ptr::null_mut() };
extern "C" fn on_trap(_: i32, _: *const u64, uc: *mut u8) {
    unsafe {
        let c = &mut *std::ptr::addr_of_mut!(CTX);
        let efl = uc.add(176) as *mut u64;
        if c.mode == OFF || c.steps > 4_000_000 {
            *efl &= !0x100;
            return;
        }
        if alloc::inside() {
            // the allocator is not part of the library
            alloc::step_again();
            *efl &= !0x100;
            return;
        }
        let n = c.steps;
        c.steps += 1;
        if c.mode == EVERY || n == c.at {
            alloc::user(|| (*c.inner).next());
            if c.mode == ONCE {
                *efl &= !0x100;
            }
        }
    }
}
#[inline(always)]
fn trap_on() {
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
}
#[inline(always)]
fn trap_off() {
    unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
}
/// Shared with the child: it was stopped because nothing moved any more.
static mut HUNG: *mut u64 = std::ptr::null_mut();
extern "C" fn on_alarm(_: i32, _: *const u64, _: *mut u8) {
    unsafe {
        *HUNG = 1;
        sys::_exit(77);
    }
}
extern "C" {
    fn alarm(s: u32) -> u32;
}
fn install() {
    unsafe {
        let mut a = [0u64; 19];
        a[17] = 0x4000_0004; // SA_SIGINFO | SA_NODEFER
        a[0] = on_trap as *const () as u64;
        sys::sigaction(5, &a, std::ptr::null_mut());
        a[0] = on_alarm as *const () as u64;
        sys::sigaction(14, &a, std::ptr::null_mut());
    }
}

// ---------------------------------------------------------------- one case: [CODE, how, mode, which, at, ops..]

const AT_EVERY: u64 = 0;
const AT_ONE: u64 = 1;
const AT_CALLBACKS: u64 = 2;

fn alone(h: &[Word]) -> Vec<u64> {
    let mut m = M::new(0);
    let mut v: Vec<u64> = Vec::with_capacity(h.len() + 2);
    for o in h {
        let x = m.apply(*o);
        v.push(x);
    }
    v.push(m.view());
    lib(|| drop(m.r.take()));
    v.push(DROPS[0].load(Relaxed));
    v
}
#[derive(Default, Clone, Copy)]
struct Got {
    points: u64,
}
fn one(how: u64, mode: u64, which: usize, at: u64, h: &[Word], got: &mut Got) -> Vec<Fail> {
    let bad = |m: String| vec![Fail { props: p(27), msg: m }];
    HOOK.with(|k| k.set(0));
    let want = alone(h);
    let mut inner = Inner::new(which, mode);
    let mut m = M::new(0);
    let mut v: Vec<u64> = Vec::with_capacity(h.len() + 2);
    let last = h.len() - 1;
    unsafe { CTX.inner = &mut inner };
    INNER.with(|i| i.set(&mut inner));
    for (i, o) in h.iter().enumerate() {
        if i < last {
            let x = m.apply(*o);
            v.push(x);
            continue;
        }
        if how == AT_CALLBACKS {
            HOOK.with(|k| k.set(3));
            let x = m.apply(*o);
            HOOK.with(|k| k.set(0));
            v.push(x);
        } else {
            unsafe {
                CTX.steps = 0;
                CTX.at = at;
                CTX.mode = if how == AT_EVERY { EVERY } else { ONCE };
            }
            trap_on();
            let x = m.apply(*o);
            trap_off();
            alloc::step_never();
            unsafe { CTX.mode = OFF };
            v.push(x);
        }
    }
    got.points = if how == AT_CALLBACKS { inner.runs } else { unsafe { CTX.steps } };
    v.push(m.view());
    if how == AT_CALLBACKS {
        HOOK.with(|k| k.set(3));
    }
    lib(|| drop(m.r.take()));
    HOOK.with(|k| k.set(0));
    v.push(DROPS[0].load(Relaxed));
    got.points = got.points.max(inner.runs);
    if v != want {
        let i = v.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(0);
        let what = if i < h.len() { format!("{} gives another result than alone", opname(&h[i])) } else if i == h.len() { "afterwards the registry holds something else than alone".into() } else { "the drop of the registry drops other values than alone".into() };
        return bad(format!("with another registry used {}: {what}", how_name(how, at)));
    }
    if let Some(e) = inner.check(which) {
        return bad(format!("{} {}", e, how_name(how, at)));
    }
    lib(|| drop(inner.along.r.take()));
    vec![]
}
fn how_name(how: u64, at: u64) -> String {
    match how {
        AT_EVERY => "at every instruction of the last operation".into(),
        AT_ONE => format!("at instruction {at} of the last operation"),
        _ => "inside the predicates and destructors of the last operation".into(),
    }
}
fn hists(n: usize) -> Vec<Vec<Word>> {
    let al = alphabet();
    let mut all = vec![];
    let mut lv: Vec<Vec<Word>> = vec![vec![]];
    for _ in 0..n {
        let mut nx = vec![];
        for h in &lv {
            for o in &al {
                let mut x = h.clone();
                x.push(*o);
                if valid(&x) {
                    nx.push(x);
                }
            }
        }
        all.extend(nx.iter().cloned());
        lv = nx;
    }
    all
}
fn explore(cx: &Cx) {
    let th = cx.thorough();
    let dbg = cfg!(debug_assertions);
    let hs = hists(if th && !dbg { 4 } else { 3 });
    let deep = hists(if th { 5 } else { 4 });
    // (name, cases)
    let mut plans: Vec<(&str, Vec<Vec<Word>>)> = vec![];
    let mut v = vec![];
    for h in &deep {
        let mut w = vec![CODE, AT_CALLBACKS, 3, (v.len() % 2) as u64, 0];
        w.extend(h);
        v.push(w);
    }
    plans.push(("inside predicates and destructors", v));
    let mut v = vec![];
    let stride = if th || !dbg { 1 } else { 3 };
    for (i, h) in hs.iter().enumerate() {
        if h.len() == 3 && i % stride != 0 {
            continue;
        }
        for mode in [1u64, 2] {
            if h.len() == 3 && !th && (i / stride) % 2 + 1 != mode as usize {
                continue;
            }
            let mut w = vec![CODE, AT_EVERY, mode, (i % 2) as u64, 0];
            w.extend(h);
            v.push(w);
        }
    }
    plans.push(("at every instruction", v));
    for (name, cases) in plans {
        if cx.stopped() {
            return;
        }
        let parts = 96.min(cases.len());
        let at = crate::shared::<u64>(parts);
        let pts = crate::shared::<u64>(parts);
        let hung = crate::shared::<u64>(1);
        unsafe { HUNG = hung };
        let callbacks = cases[0][1] == AT_CALLBACKS;
        let r = fork_map(parts, cx.threads, Duration::from_secs(if th { 7200 } else { 200 }), &|x| {
            install();
            for i in (x..cases.len()).step_by(parts) {
                unsafe {
                    *at.add(x) = i as u64;
                    alarm(if callbacks { 20 } else { 60 });
                }
                let c = &cases[i];
                let mut g = Got::default();
                let f = one(c[1], c[2], c[3] as usize, c[4], &c[5..], &mut g);
                unsafe { *pts.add(x) += g.points };
                if !f.is_empty() {
                    return f;
                }
            }
            unsafe { alarm(0) };
            vec![]
        });
        let points: u64 = (0..parts).map(|x| unsafe { *pts.add(x) }).sum();
        cx.states(cases.len() as u64);
        cx.transitions(points);
        cx.executions.fetch_add(points, Relaxed);
        cx.count(if callbacks { "operations of another registry inside callbacks" } else { "instruction boundaries at which another registry was used" }, points);
        cx.note(format!("{name}: {} histories of an outer registry, another registry used {points} times inside their last operation", cases.len()));
        for (x, o) in r.into_iter().enumerate() {
            let w = &cases[unsafe { *at.add(x) } as usize];
            match o {
                Out::Fine => {
                    if x % 30 == 0 {
                        cx.sample(w);
                    }
                }
                Out::Failed(f) => {
                    cx.judge(w, f);
                }
                // (one thread waiting for another which is stopped in the middle of an operation)
                Out::Lost if !callbacks && unsafe { *hung } != 0 => cx.note(format!("{}: operations did not end when interrupted", show(cx.tier, w))),
                Out::Lost => {
                    cx.judge(w, vec![Fail { props: p(27), msg: format!("operations crash or do not end when another registry is used {}", how_name(w[1], w[4])) }]);
                }
            }
        }
    }
    // each instruction on its own
    let short = hists(if th { 3 } else { 2 });
    let step = if th { 1 } else if dbg { 20 } else { 5 };
    let parts = short.len();
    let at = crate::shared::<u64>(parts);
    let pts = crate::shared::<u64>(parts);
    let r = fork_map(parts, cx.threads, Duration::from_secs(if th { 7200 } else { 200 }), &|x| {
        install();
        unsafe { alarm(if th { 3600 } else { 150 }) };
        let h = &short[x];
        let mut g = Got::default();
        let f = one(AT_EVERY, 1, 0, 0, h, &mut g);
        if !f.is_empty() {
            return vec![]; // (reported above)
        }
        let n = g.points;
        let mut i = (x % step) as u64;
        while i < n {
            unsafe { *at.add(x) = i };
            let f = one(AT_ONE, 3, x % 2, i, h, &mut g);
            unsafe { *pts.add(x) += 1 };
            if !f.is_empty() {
                return f;
            }
            i += step as u64;
        }
        unsafe { alarm(0) };
        vec![]
    });
    let points: u64 = (0..parts).map(|x| unsafe { *pts.add(x) }).sum();
    cx.transitions(points);
    cx.executions.fetch_add(points, Relaxed);
    cx.count("separate schedules with one preemption by another registry", points);
    cx.note(format!("{} histories interrupted at single instructions{}: {points} schedules", short.len(), if step > 1 { format!(" (every {step}th)") } else { String::new() }));
    for (x, o) in r.into_iter().enumerate() {
        let mut w = vec![CODE, AT_ONE, 3, (x % 2) as u64, unsafe { *at.add(x) }];
        w.extend(&short[x]);
        match o {
            Out::Fine => {}
            Out::Failed(f) => {
                cx.judge(&w, f);
            }
            Out::Lost => cx.note(format!("{}: not all interruptions explored", show(cx.tier, &w))),
        }
    }
}
fn run(_: Tier, c: &[Word]) -> Vec<Fail> {
    let hung = crate::shared::<u64>(1);
    unsafe { HUNG = hung };
    let r = fork_map(1, 1, Duration::from_secs(100), &|_| {
        install();
        unsafe { alarm(60) };
        let f = one(c[1], c[2], c[3] as usize, c[4], &c[5..], &mut Got::default());
        unsafe { alarm(0) };
        f
    });
    match r.into_iter().next() {
        Some(Out::Fine) => vec![],
        Some(Out::Failed(f)) => f,
        _ if c[1] != AT_CALLBACKS && unsafe { *hung } != 0 => vec![],
        _ => vec![Fail { props: p(27), msg: format!("operations crash or do not end when another registry is used {}", how_name(c[1], c[4])) }],
    }
}
fn show(_: Tier, c: &[Word]) -> String {
    format!("{}; another registry is used {}", c[5..].iter().map(opname).collect::<Vec<_>>().join("; "), how_name(c[1], c[4]))
}

// ---------------------------------------------------------------- P24: reads inside the predicate of an iteration

fn nested_reads(h: &[Word]) -> Vec<Fail> {
    let mut m = M::new(0);
    for o in h {
        m.apply(*o);
    }
    let n = m.n;
    let hs = m.h;
    let r = m.r.as_ref().unwrap();
    let reads = |depth: u32| -> u64 {
        fn inner(r: &Registry, hs: &[Entity], depth: u32) -> u64 {
            let mut x = 41;
            for e in hs {
                x = mix(x, lib(|| r.get_component::<Na>(*e)).map_or(1, |a| a as *const _ as u64));
                x = mix(x, lib(|| r.get_components::<(Nb, Na)>(*e)).map_or(1, |(b, a)| mix(a.0 as u64, b.0)));
                x = mix(x, lib(|| r.has_components::<(Nz, Na)>(*e)) as u64);
            }
            let mut k = 0u64;
            lib(|| r.iter_entities()).for_each(|e| k = mix(k, e.raw() as u64));
            lib(|| r.iter_entity_components_matching::<Na>()).for_each(|(e, a)| k = mix(mix(k, e.as_ptr() as u64), a.len() as u64));
            k = mix(k, lib(|| r.iter_components_exact::<(Nb, Na)>()).0.len() as u64);
            let mut all = true;
            let mut first = 0;
            let q = std::cell::Cell::new(0u64);
            let it = lib(|| {
                r.iter_filtered_entity_components_matching::<Na, _>(|d| {
                    if depth > 0 {
                        let v = alloc::user(|| inner(r, hs, depth - 1));
                        if q.get() != 0 && q.get() != v {
                            q.set(!0);
                        } else {
                            q.set(v);
                        }
                    }
                    d.len() < 3
                })
            });
            lib(|| it.for_each(|(e, a)| {
                first = mix(mix(first, e.as_ptr() as u64), a.as_ptr() as u64);
                all &= e.len() == a.len();
            }));
            if q.get() == !0 {
                return !0;
            }
            mix(mix(mix(x, k), first), all as u64)
        }
        inner(r, &hs[..n], depth)
    };
    let flat = reads(0);
    let mut out = vec![];
    for d in 1..3 {
        if reads(d) != flat || flat == !0 {
            out = vec![Fail { props: p(24), msg: format!("reads give other results when reads of the same registry run inside the predicates (nested {d} deep)") }];
        }
    }
    if reads(0) != flat && out.is_empty() {
        out = vec![Fail { props: p(24), msg: "reads give other results when repeated".into() }];
    }
    lib(|| drop(m.r.take()));
    out
}
fn explore_read(cx: &Cx) {
    let hs = hists(if cx.thorough() { 5 } else { 4 });
    cx.par(hs.len(), |i| {
        let mut w = vec![CODE_READ];
        w.extend(&hs[i]);
        cx.case(&w, || nested_reads(&hs[i]));
        if i % 997 == 5 {
            cx.sample(&w);
        }
    });
    cx.states(hs.len() as u64);
    cx.transitions(hs.len() as u64 * 4);
    cx.count("states in which reads run inside the predicates of reads", hs.len() as u64);
}
fn run_read(_: Tier, c: &[Word]) -> Vec<Fail> {
    nested_reads(&c[1..])
}
fn show_read(_: Tier, c: &[Word]) -> String {
    format!("{}; then reads inside the predicates of reads", c[1..].iter().map(opname).collect::<Vec<_>>().join("; "))
}
