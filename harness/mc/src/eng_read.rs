//! P24: reads of a shared registry. In every state reached, the registry's memory and the program's static data are
//! write-protected while every operation on a shared reference runs: if none of them writes, all interleavings are
//! equivalent to running them one after the other. In addition reads are interrupted at every machine instruction
//! and other reads run to completion there.
use crate::core::*;
use crate::forks::*;
use crate::hist::*;
use crate::props::*;
use crate::sys;
use crate::tables::*;
use crate::world::*;
use mcbase::alloc::{self, lib};
use mcbase::groups::*;
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::{Entity, Registry};
use std::time::Duration;

pub fn engines() -> Vec<Eng> {
    vec![Eng { code: CODE, explore, run, show }]
}
const CODE: Word = 1024;
const ARENA: usize = 48 << 20;

// ---------------------------------------------------------------- reads

#[derive(Clone, Copy)]
enum Rd {
    Has(Entity, u8),
    Get(Entity, u8),
    HasG(Entity, usize),
    GetG(Entity, usize),
    Iter(usize, u8, u32),
    Live,
}
fn name(r: &Rd) -> String {
    let k = |k: &u8| mcbase::comps::kinds()[*k as usize].name;
    let t = tables();
    match r {
        Rd::Has(e, x) => format!("has_component::<{}>({:#x})", k(x), e.raw()),
        Rd::Get(e, x) => format!("get_component::<{}>({:#x})", k(x), e.raw()),
        Rd::HasG(e, g) => format!("has_components::<{}>({:#x})", t.name(*g), e.raw()),
        Rd::GetG(e, g) => format!("get_components::<{}>({:#x})", t.name(*g), e.raw()),
        Rd::Iter(g, m, p) => format!("{}::<{}>{}", MODE_NAMES[*m as usize], t.name(*g), if *m == 4 || *m == 6 { format!(" where {}", pred_name(*p)) } else { String::new() }),
        Rd::Live => "iter_entities".into(),
    }
}
fn mix(h: u64, x: u64) -> u64 {
    (h ^ x).wrapping_mul(0xff51_afd7_ed55_8ccd).rotate_left(31)
}
/// Performs the read; the result identifies everything it yields. Does not allocate.
#[inline(never)]
fn exec(r: &Rd, reg: &Registry, buf: &mut Vec<Chunk>) -> u64 {
    let t = tables();
    match *r {
        Rd::Has(e, k) => (t.k[k as usize].has)(reg, e) as u64,
        Rd::Get(e, k) => (t.k[k as usize].get)(reg, e).map_or(1, |p| p as u64),
        Rd::HasG(e, g) => (t.g[g].has)(reg, e) as u64,
        Rd::GetG(e, g) => match (t.g[g].get)(reg, e) {
            None => 1,
            Some(p) => {
                let mut h = 7;
                for i in 0..t.g[g].ks.len() {
                    h = mix(h, p[i] as u64);
                }
                h
            }
        },
        Rd::Iter(g, m, p) => {
            buf.clear();
            let pr = |d: &ArchetypeDescriptor| {
                let mut mask = 0;
                for (i, k) in t.k.iter().enumerate().take(4) {
                    mask |= ((k.desc_has)(d) as u32) << i;
                }
                pred_eval(p, mask)
            };
            (t.g[g].iter_ro)(reg, m, &pr, buf);
            let mut h = 9;
            for c in buf.iter() {
                if let Some((p, n)) = c.ents {
                    h = mix(mix(h, p as u64), n as u64);
                }
                for i in 0..t.g[g].ks.len() {
                    h = mix(mix(h, c.cols[i].0 as u64), c.cols[i].1 as u64);
                }
            }
            h
        }
        Rd::Live => {
            let mut h = 11;
            let mut it = lib(|| reg.iter_entities());
            while let Some(e) = lib(|| it.next()) {
                h = mix(h, e.raw() as u64);
            }
            h
        }
    }
}

// ---------------------------------------------------------------- write protection, single steps

const OFF: u64 = 0;
const EVERY: u64 = 1;
const ONCE: u64 = 2;
const COUNT: u64 = 3;
#[repr(C)]
struct Ctx {
    /// Protected regions: the arena, static data.
    reg: [(usize, usize); 2],
    written: [u64; 2],
    first: [(usize, usize); 2],
    // single steps
    mode: u64,
    steps: u64,
    at: u64,
    other: *const Rd,
    expect: u64,
    bad: u64,
    got: u64,
    registry: *const Registry,
    buf: *mut Vec<Chunk>,
}
static mut CTX: *mut Ctx = std::ptr::null_mut();

extern "C" fn on_segv(_: i32, info: *const u64, uc: *mut u8) {
    unsafe {
        let c = &mut *CTX;
        let addr = *info.add(2) as usize;
        let rip = *(uc.add(168) as *const u64) as usize;
        for i in 0..2 {
            let (b, e) = c.reg[i];
            if addr >= b && addr < e {
                if c.written[i] == 0 {
                    c.first[i] = (addr, rip);
                }
                c.written[i] += 1;
                sys::mprotect(b as *mut u8, e - b, 3);
                return;
            }
        }
        // not ours: let it happen
        let dfl = [0u64; 19];
        sys::sigaction(11, &dfl, std::ptr::null_mut());
    }
}
extern "C" fn on_trap(_: i32, _: *const u64, uc: *mut u8) {
    unsafe {
        let c = &mut *CTX;
        let efl = uc.add(176) as *mut u64;
        if c.mode == OFF {
            *efl &= !0x100;
            return;
        }
        let n = c.steps;
        c.steps += 1;
        if c.mode == EVERY || (c.mode == ONCE && n == c.at) {
            let r = exec(&*c.other, &*c.registry, &mut *c.buf);
            if r != c.expect && c.bad == 0 {
                c.bad = n + 1;
                c.got = r;
            }
            if c.mode == ONCE {
                *efl &= !0x100;
            }
        }
        if n > 2_000_000 {
            *efl &= !0x100;
        }
    }
}
#[inline(always)]
fn trap_on() {
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
}
#[inline(always)]
fn trap_off() {
    unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
}
fn install() {
    unsafe {
        let mut a = [0u64; 19];
        // SA_SIGINFO | SA_NODEFER
        a[17] = 0x4000_0004;
        a[0] = on_segv as *const () as u64;
        sys::sigaction(11, &a, std::ptr::null_mut());
        a[0] = on_trap as *const () as u64;
        sys::sigaction(5, &a, std::ptr::null_mut());
    }
}
/// The program's writable static data.
fn statics() -> (usize, usize) {
    let m = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let exe = std::fs::read_link("/proc/self/exe").map(|p| p.display().to_string()).unwrap_or_default();
    let mut r = (0, 0);
    for l in m.lines() {
        let mut f = l.split_whitespace();
        let (Some(range), Some(perm)) = (f.next(), f.next()) else { continue };
        let path = f.nth(3).unwrap_or("");
        let (b, e) = range.split_once('-').unwrap();
        let (b, e) = (usize::from_str_radix(b, 16).unwrap(), usize::from_str_radix(e, 16).unwrap());
        if perm.starts_with("rw") && path == exe {
            r = if r.0 == 0 { (b, e) } else { (r.0, e) };
        } else if perm.starts_with("rw") && path.is_empty() && r.1 == b && r.1 != 0 {
            r.1 = e;
        }
    }
    r
}

struct Child {
    ctx: *mut Ctx,
    arena: usize,
}
impl Child {
    fn new() -> Child {
        unsafe {
            let ctx = sys::mmap(std::ptr::null_mut(), 1 << 16, 3, 0x22, -1, 0) as *mut Ctx;
            let arena = sys::mmap(std::ptr::null_mut(), ARENA, 3, 0x4022, -1, 0) as usize;
            CTX = ctx;
            (*ctx).reg[1] = statics();
            install();
            // (everything initialised lazily is initialised now)
            tables();
            mcbase::comps::kinds();
            Child { ctx, arena }
        }
    }
    fn protect(&self, on: bool) {
        for i in 0..2 {
            let (b, e) = unsafe { (*self.ctx).reg[i] };
            if b != e {
                unsafe { sys::mprotect(b as *mut u8, e - b, if on { 1 } else { 3 }) };
            }
        }
    }
}

// ---------------------------------------------------------------- one state

#[derive(Clone, Copy, Default)]
#[repr(C)]
struct Count {
    reads: u64,
    points: u64,
    schedules: u64,
    statics: u64,
}

/// A few reads of every form.
fn some_reads(s: &Scn, w: &World) -> Vec<Rd> {
    let mut hs: Vec<Entity> = w.live_ids().iter().map(|i| w.ents[*i].h).collect();
    if hs.len() > 2 {
        hs = vec![hs[0], hs[hs.len() - 1]];
    }
    let dead = w.ents.iter().rev().find(|e| !e.alive).map_or(Entity::INVALID, |e| e.h);
    let gs = &s.obs.groups;
    let mut v = vec![Rd::Get(dead, s.kinds[0]), Rd::Live];
    for (i, h) in hs.iter().enumerate() {
        v.push(Rd::Has(*h, s.kinds[i]));
        v.push(Rd::Get(*h, s.kinds[0]));
        v.push(Rd::HasG(*h, gs[i]));
        v.push(Rd::GetG(*h, gs[(i + w.ents.len()) % gs.len()]));
    }
    let m = w.ents.last().map_or(0, |e| e.mask);
    let g = gs.iter().copied().find(|g| tables().g[*g].mask == m).unwrap_or(gs[0]);
    v.extend([Rd::Iter(g, 10, 0), Rd::Iter(gs[0], 8, 0), Rd::Iter(gs[0], 2, 0), Rd::Iter(gs[1], 4, pred_lacks(s.kinds[0]))]);
    v
}
fn wrote(rd: &Rd, ctx: &Ctx) -> String {
    let (a, ip) = ctx.first[0];
    format!("{} writes to memory of the registry (at offset {:#x}, code at {ip:#x})", name(rd), a - ctx.reg[0].0)
}
fn reads(s: &Scn, w: &World) -> Vec<Rd> {
    let mut v = vec![];
    let mut hs: Vec<Entity> = w.live_ids().iter().map(|i| w.ents[*i].h).collect();
    if hs.len() > 5 {
        let n = hs.len();
        hs = vec![hs[0], hs[1], hs[n / 2], hs[n - 2], hs[n - 1]];
    }
    if let Some(e) = w.ents.iter().rev().find(|e| !e.alive) {
        hs.push(e.h);
    }
    hs.push(Entity::INVALID);
    hs.push(w.handle(SP_BEYOND));
    let gs = &s.obs.groups;
    for h in &hs {
        for k in &s.kinds {
            v.push(Rd::Has(*h, *k));
            v.push(Rd::Get(*h, *k));
        }
        for g in gs {
            v.push(Rd::HasG(*h, *g));
            v.push(Rd::GetG(*h, *g));
        }
    }
    for g in gs {
        for m in [0u8, 2, 8, 10] {
            v.push(Rd::Iter(*g, m, 0));
        }
        for m in [4u8, 6] {
            for p in [pred_lacks(s.kinds[0]), PRED_TRUE, PRED_FALSE] {
                v.push(Rd::Iter(*g, m, p));
            }
        }
    }
    v.push(Rd::Live);
    v
}

/// `level` 0: every read under write protection; 1: also every pair, the second at every instruction of the first;
/// 2: also each instruction on its own, with both repeated afterwards.
fn state(c: &Child, s: &Scn, path: &[Word], level: u64, cnt: &mut Count) -> Vec<Fail> {
    let bad = |m: String| vec![Fail { props: p(24), msg: m }];
    alloc::flush_quarantine();
    alloc::arena(c.arena, c.arena + ARENA, true);
    let mut w = build(s, path);
    if w.dead || !w.fails.is_empty() {
        alloc::arena(c.arena, c.arena + ARENA, false);
        std::mem::forget(w.reg.take());
        return w.into_fails();
    }
    let r = w.reg.take().unwrap();
    let reg: Box<Registry> = lib(|| Box::new(*r));
    let used = alloc::arena_off();
    let ctx = unsafe { &mut *c.ctx };
    ctx.reg[0] = (c.arena, (used + 4095) & !4095);
    let n = w.sets.len() + 4;
    let mut buf: Vec<Chunk> = Vec::with_capacity(n);
    let mut buf2: Vec<Chunk> = Vec::with_capacity(n);
    let all = if level > 0 { some_reads(s, &w) } else { reads(s, &w) };
    let mut first: Vec<u64> = Vec::with_capacity(all.len());
    ctx.written = [0; 2];
    ctx.mode = OFF;
    let mut out = vec![];
    // every one under protection
    if level > 0 {
        for rd in &reads(s, &w) {
            c.protect(true);
            exec(rd, &reg, &mut buf);
            c.protect(false);
            cnt.reads += 1;
            if ctx.written[0] > 0 && out.is_empty() {
                out = bad(wrote(rd, ctx));
            }
        }
    }
    // each once, then all again in the opposite order
    for rd in &all {
        c.protect(true);
        let x = exec(rd, &reg, &mut buf);
        c.protect(false);
        first.push(x);
        cnt.reads += 1;
        if ctx.written[0] > 0 && out.is_empty() {
            out = bad(wrote(rd, ctx));
        }
    }
    for (i, rd) in all.iter().enumerate().rev() {
        let x = exec(rd, &reg, &mut buf);
        cnt.reads += 1;
        if x != first[i] && out.is_empty() {
            out = bad(format!("{} gives another result when repeated", name(rd)));
        }
    }
    cnt.statics += ctx.written[1];
    if level > 0 && out.is_empty() {
        ctx.registry = &*reg;
        ctx.buf = &mut buf2;
        'pairs: for (i, a) in all.iter().enumerate() {
            for (j, b) in all.iter().enumerate() {
                ctx.other = b;
                ctx.expect = first[j];
                ctx.bad = 0;
                ctx.steps = 0;
                ctx.mode = EVERY;
                trap_on();
                let x = exec(a, &reg, &mut buf);
                trap_off();
                ctx.mode = OFF;
                let points = ctx.steps;
                cnt.points += points;
                let y = exec(b, &reg, &mut buf);
                if x != first[i] || ctx.bad != 0 || y != first[j] {
                    out = bad(format!("{} interrupted by {} at every instruction: {}", name(a), name(b), if x != first[i] { "the first gives another result" } else { "the second gives another result" }));
                    break 'pairs;
                }
                if level < 2 || matches!(a, Rd::Iter(..) | Rd::Live) {
                    continue;
                }
                for at in 0..points {
                    ctx.steps = 0;
                    ctx.at = at;
                    ctx.mode = ONCE;
                    trap_on();
                    let x = exec(a, &reg, &mut buf);
                    trap_off();
                    ctx.mode = OFF;
                    let y = exec(b, &reg, &mut buf);
                    let z = exec(a, &reg, &mut buf);
                    cnt.schedules += 1;
                    if x != first[i] || ctx.bad != 0 || y != first[j] || z != first[i] {
                        out = bad(format!("{} interrupted by {} at instruction {at}: {}", name(a), name(b), if x != first[i] { "the first gives another result" } else if ctx.bad != 0 { "the second gives another result" } else { "a later repetition gives another result" }));
                        break 'pairs;
                    }
                }
            }
        }
    }
    lib(|| drop(reg));
    alloc::flush_quarantine();
    alloc::take_err();
    mcbase::comps::take_drops();
    out
}

// ---------------------------------------------------------------- exploration

fn scns(th: bool) -> Vec<Scn> {
    let mut v = vec![];
    let mut f = scn("four kinds", vec![], &[A, Z, W, H], obs(&[], pal1_sets()));
    f.creates = vec![gi(&[A]), gi(&[W, A]), gi(&[Z, H]), gi(&[H, W, Z, A])];
    f.removes = vec![gi(&[A])];
    f.depth = if th { 6 } else { 4 };
    f.max_states = if th { 60_000 } else { 3_000 };
    v.push(f.clone());
    for (n, b) in bases(th) {
        let mut s = f.clone();
        s.name = n;
        s.base = b;
        s.kinds = vec![A, H, W];
        s.creates = vec![gi(&[A]), gi(&[H, A])];
        s.max_live = usize::MAX;
        s.depth = if th { 2 } else { 1 };
        v.push(s);
    }
    v
}
/// All distinct states: (history, depth).
fn states(s: &Scn) -> Vec<Vec<Word>> {
    let seen = Seen::new();
    let mut all: Vec<Vec<Word>> = vec![vec![]];
    let mut i = 0;
    while i < all.len() {
        if all[i].len() < s.depth && all.len() < s.max_states {
            let w = build(s, &all[i]);
            if !w.dead {
                let ops = enabled(s, &w);
                for o in ops {
                    let mut c = all[i].clone();
                    c.push(o);
                    let mut w = build(s, &c);
                    if !w.dead && seen.insert(w.key(s.kmask())) {
                        all.push(c);
                    }
                }
            }
        }
        i += 1;
    }
    all
}
/// A type can be shared between threads.
struct Probe<T>(std::marker::PhantomData<T>);
trait No {
    fn sync(&self) -> bool {
        false
    }
}
impl<T> No for Probe<T> {}
impl<T: Sync> Probe<T> {
    fn sync(&self) -> bool {
        true
    }
}

fn explore(cx: &Cx) {
    let th = cx.thorough();
    if !Probe::<Registry>(std::marker::PhantomData).sync() {
        cx.judge(&[CODE, 99, 0], vec![Fail { props: p(24), msg: "a registry cannot be shared between threads (it is not Sync)".into() }]);
        return;
    }
    let sc = scns(th);
    for (si, s) in sc.iter().enumerate() {
        if cx.stopped() {
            return;
        }
        let st = states(s);
        // the states whose reads are interrupted
        let step = (st.len() / if th { 400 } else if si == 0 { 40 } else { 2 }).max(1);
        let fine = (st.len() / if th { 24 } else if si == 0 { 8 } else { 1 }).max(1);
        let level = |i: usize| if cfg!(debug_assertions) && !th { (i % fine == 0 && si == 0) as u64 } else if i % fine == 0 && s.base.is_empty() { 2 } else { (i % step == 0 && s.base.len() < 4) as u64 };
        let parts = 64.min(st.len());
        let cnts = crate::shared::<Count>(parts);
        let at = crate::shared::<u64>(parts);
        let r = fork_map(parts, cx.threads, Duration::from_secs(if th { 7200 } else { 200 }), &|x| {
            let c = Child::new();
            let mut cnt = Count::default();
            for i in (x..st.len()).step_by(parts) {
                unsafe { *at.add(x) = i as u64 };
                let f = state(&c, s, &st[i], level(i), &mut cnt);
                unsafe { *cnts.add(x) = cnt };
                if f.iter().any(|f| f.props & p(24) != 0) {
                    return f;
                }
            }
            vec![]
        });
        let mut sum = Count::default();
        for x in 0..parts {
            let c = unsafe { *cnts.add(x) };
            sum.reads += c.reads;
            sum.points += c.points;
            sum.schedules += c.schedules;
            sum.statics += c.statics;
        }
        cx.states(st.len() as u64);
        cx.transitions(sum.reads + sum.points + sum.schedules);
        cx.executions.fetch_add(sum.reads + sum.points + sum.schedules, std::sync::atomic::Ordering::Relaxed);
        cx.count("reads under write protection", sum.reads);
        cx.count("instruction boundaries at which another read ran", sum.points);
        cx.count("separate schedules with one preemption", sum.schedules);
        cx.count("writes to static data", sum.statics);
        cx.note(format!("{} [{}]: {} states to depth {}; {} reads under write protection, {} instruction boundaries interrupted, {} separate schedules, {} writes to static data", s.name, show_ops(&s.base), st.len(), s.depth, sum.reads, sum.points, sum.schedules, sum.statics));
        for (x, o) in r.into_iter().enumerate() {
            let i = unsafe { *at.add(x) } as usize;
            let mut w = vec![CODE, si as u64, level(i)];
            w.extend(&st[i]);
            match o {
                Out::Fine => {
                    if x % 20 == 0 {
                        cx.sample(&w);
                    }
                }
                Out::Failed(f) => {
                    cx.judge(&w, f);
                }
                Out::Lost if matches!(run(cx.tier, &w).first(), None) => cx.note(format!("not all interruptions of {} explored in time", show_ops(&st[i]))),
                Out::Lost if sum.statics > 0 => cx.note(format!("{}: a run did not end (nested reads wait for each other?)", show_ops(&st[i]))),
                Out::Lost => {
                    cx.judge(&w, vec![Fail { props: p(24), msg: "reads crash or do not end when other reads run in between".into() }]);
                }
            }
        }
    }
}
fn run(t: Tier, c: &[Word]) -> Vec<Fail> {
    if c[1] == 99 {
        return if Probe::<Registry>(std::marker::PhantomData).sync() { vec![] } else { vec![Fail { props: p(24), msg: "a registry cannot be shared between threads (it is not Sync)".into() }] };
    }
    let s = &scns(t == Tier::Thorough)[c[1] as usize];
    match fork_map(1, 1, Duration::from_secs(100), &|_| state(&Child::new(), s, &c[3..], c[2], &mut Count::default())).pop() {
        Some(Out::Fine) => vec![],
        Some(Out::Failed(f)) => f,
        _ => vec![Fail { props: p(24), msg: "reads crash or do not end when other reads run in between".into() }],
    }
}
fn show(t: Tier, c: &[Word]) -> String {
    if c[1] == 99 {
        return "the type Registry".into();
    }
    let s = &scns(t == Tier::Thorough)[c[1] as usize];
    let mut ops = s.base.clone();
    ops.extend_from_slice(&c[3..]);
    format!("[{}] {}; then only reads", s.name, show_ops(&ops))
}
