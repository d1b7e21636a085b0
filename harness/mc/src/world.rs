//! A real `Registry` driven in lock-step with a reference model, and the observers that compare the two.
use crate::core::*;
use crate::tables::*;
use mcbase::alloc::{self, lib, user};
use mcbase::comps::*;
use mcbase::groups::*;
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::{Entity, Registry};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

// ---------------------------------------------------------------- operations

pub const CREATE: u64 = 1;
pub const DESTROY: u64 = 2;
pub const REMOVE: u64 = 3;
pub const ADD: u64 = 4;
pub const REM: u64 = 5;
pub const SET: u64 = 6;
pub const SETG: u64 = 7;
pub const ITERSET: u64 = 8;
pub const BULK: u64 = 9;
pub const CYCLE: u64 = 10;
pub const DESTROY_NTH: u64 = 11;
pub const ADD_ALL: u64 = 12;
pub const REM_ALL: u64 = 13;
pub const SETS: u64 = 14;
pub const READ: u64 = 15;
pub const READG: u64 = 16;
pub const OBSERVE: u64 = 17;
pub const TURN: u64 = 18;
pub const RAMP: u64 = 19;
pub const LEVEL: u64 = 20;
pub const MOVED: u64 = 21;
pub const RESET: u64 = 22;
pub const ITER: u64 = 23;
/// Versions given by RAMP to the slots behind the first 257: every boundary version in a slot of the other parity.
pub const RAMP_TAIL: [usize; 8] = [254, 255, 0, 1, 128, 127, 2, 129];

#[inline]
pub const fn op(c: u64, a: u64, b: u64) -> Word {
    c << 56 | a << 28 | b
}
#[inline]
pub fn dec(w: Word) -> (u64, usize, usize) {
    (w >> 56, (w >> 28 & 0xFFF_FFFF) as usize, (w & 0xFFF_FFFF) as usize)
}
/// Entity references at or above this are special handles.
pub const SPECIAL: usize = 0xFFF_FF00;
pub const SP_INVALID: usize = SPECIAL;
pub const SP_BEYOND: usize = SPECIAL + 1;
pub const SP_MAXIDX: usize = SPECIAL + 2;

pub fn ename(e: usize) -> String {
    match e {
        SP_INVALID => "INVALID".into(),
        SP_BEYOND => "never-issued index".into(),
        SP_MAXIDX => "largest index".into(),
        e => format!("e{e}"),
    }
}
pub fn show_op(w: Word) -> String {
    let t = tables();
    let (c, a, b) = dec(w);
    let k = |b: usize| kinds().get(b).map_or("?", |k| k.name);
    let g = |b: usize| if b < t.g.len() { t.name(b) } else { format!("group#{b}") };
    match c {
        CREATE => format!("create{}", g(a)),
        DESTROY => format!("destroy({})", ename(a)),
        REMOVE => format!("remove_entity::<{}>({})", g(b), ename(a)),
        ADD => format!("add_component::<{}>({})", k(b), ename(a)),
        REM => format!("remove_component::<{}>({})", k(b), ename(a)),
        SET => format!("*get_component_mut::<{}>({}) = new", k(b), ename(a)),
        SETG => format!("*get_components_mut::<{}>({}) = new", g(b), ename(a)),
        ITERSET => format!("write through {}::<{}>", MODE_NAMES[b.min(11)], g(a)),
        BULK => format!("create{} x{}", g(a), b),
        CYCLE => format!("(create{}; destroy) x{}", g(a), b),
        RAMP => format!("slots released 0 to 256 times, then {RAMP_TAIL:?} times, all live with {}", g(a)),
        DESTROY_NTH => format!("destroy every {a}th live entity (at most {b})"),
        ADD_ALL => format!("add_component::<{}> to every entity lacking it", k(b)),
        REM_ALL => format!("remove_component::<{}> from every entity having it", k(b)),
        LEVEL => format!("entities with the first {b} component sets of {a} kinds"),
        SETS => format!("entities with component sets #{a}..#{}", a + b),
        READ => format!("get_component::<{}>({})", k(b), ename(a)),
        READG => format!("get_components::<{}>({})", g(b), ename(a)),
        OBSERVE => "observe".into(),
        MOVED => "move the registry in memory".into(),
        RESET => "drop the registry, go on with a new one".into(),
        ITER => format!("{}::<{}>{}", MODE_NAMES[(b & 15).min(11)], g(a), if b > 15 { format!(" (predicate {})", b >> 4) } else { String::new() }),
        TURN => format!("registry #{a}:"),
        _ => format!("op {w:x}"),
    }
}
pub fn show_ops(ws: &[Word]) -> String {
    ws.iter().map(|w| show_op(*w)).collect::<Vec<_>>().join("; ")
}

// ---------------------------------------------------------------- predicates

/// Predicates over component sets, by number.
pub const PRED_TRUE: u32 = 0;
pub const PRED_FALSE: u32 = 1;
pub fn pred_has(k: u8) -> u32 {
    0x100 | k as u32
}
pub fn pred_lacks(k: u8) -> u32 {
    0x200 | k as u32
}
pub fn pred_len(n: u8) -> u32 {
    0x300 | n as u32
}
/// Arbitrary predicate over the subsets of the four kinds starting at `base`: bit i of `table` decides subset i.
pub fn pred_table(base: u8, table: u16) -> u32 {
    0x8000_0000 | (base as u32) << 16 | table as u32
}
/// Predicates of the operation ITER: true, lacks W, has H.
pub const ITER_PREDS: [u32; 3] = [PRED_TRUE, 0x202, 0x103];
pub fn pred_eval(p: u32, m: u32) -> bool {
    if p & 0x8000_0000 != 0 {
        let base = p >> 16 & 31;
        let sub = m >> base & 15;
        if m & !(15 << base) != 0 {
            return m.count_ones() % 2 == 0;
        }
        return p >> sub & 1 == 1;
    }
    match p & 0xF00 {
        0x100 => m >> (p & 31) & 1 == 1,
        0x200 => m >> (p & 31) & 1 == 0,
        0x300 => m.count_ones() == p & 31,
        _ => p == PRED_TRUE,
    }
}
pub fn pred_name(p: u32) -> String {
    if p & 0x8000_0000 != 0 {
        return format!("truth table {:016b}", p & 0xFFFF);
    }
    match p & 0xF00 {
        0x100 => format!("has {}", kinds()[(p & 31) as usize].name),
        0x200 => format!("lacks {}", kinds()[(p & 31) as usize].name),
        0x300 => format!("len == {}", p & 31),
        _ => (if p == PRED_TRUE { "always" } else { "never" }).into(),
    }
}

// ---------------------------------------------------------------- model

#[derive(Clone)]
pub struct Ent {
    pub h: Entity,
    pub mask: u32,
    pub alive: bool,
    pub toks: [u32; NK],
    /// How many handles this slot had issued before this one.
    pub nth: u32,
}

#[derive(Clone)]
pub struct Obs {
    pub live: bool,
    /// Per-entity lookups.
    pub ents: bool,
    pub kinds: u32,
    pub groups: Vec<usize>,
    /// Bit set of iteration modes (0..4 matching, 4..8 filtered, 8..12 exact).
    pub modes: u16,
    pub preds: Vec<u32>,
    /// Operations on handles that must not work.
    pub dead: bool,
    /// Groups used for dead-handle operations.
    pub dead_groups: Vec<usize>,
    /// Iterations are also consumed with fold, nth, last, count, ...
    pub styles: bool,
}

pub struct World {
    pub reg: Option<Box<Registry>>,
    pub ents: Vec<Ent>,
    pub live: HashMap<u32, usize>,
    pub order: Vec<usize>,
    pub issues: BTreeMap<u32, u32>,
    pub issued: HashSet<u32>,
    pub released: Vec<u32>,
    pub sets: Vec<u32>,
    pub maxrows: BTreeMap<u32, (u32, u32)>,
    pub ctr: u32,
    pub fails: Vec<Fail>,
    pub blame: u64,
    pub always: u64,
    pub dead: bool,
    pub limit: usize,
    pub blocks0: i64,
    expect: Vec<(u8, u32)>,
    /// Outcome of the last operation in a comparable form.
    pub last: Vec<u64>,
    /// The outcomes of all operations applied, one hash each.
    pub hist: Vec<u64>,
    chunks: Vec<Chunk>,
    pub calls: u64,
}

pub fn tok_n(n: u32) -> u32 {
    (n & 0x3F) | (n >> 6) << 7
}
#[inline]
fn km(k: usize) -> u32 {
    kinds()[k].mask
}

impl World {
    pub fn new() -> World {
        take_drops();
        alloc::take_err();
        let b = alloc::live_blocks();
        let reg = lib(Registry::default);
        World {
            reg: Some(user(|| Box::new(reg))),
            ents: vec![],
            live: HashMap::new(),
            order: vec![],
            issues: BTreeMap::new(),
            issued: HashSet::new(),
            released: vec![],
            sets: vec![],
            maxrows: BTreeMap::new(),
            ctr: 1,
            fails: vec![],
            blame: 0,
            always: 0,
            dead: false,
            limit: usize::MAX,
            blocks0: b,
            expect: vec![],
            last: vec![],
            hist: vec![],
            chunks: vec![],
            calls: 0,
        }
    }
    pub fn fail(&mut self, props: u64, msg: String) {
        if self.fails.len() < 24 {
            self.fails.push(Fail { props: props | self.blame | self.always, msg });
        }
    }
    /// Performs a library call; a panic is a failure.
    pub fn call<R>(&mut self, what: &str, f: impl FnOnce(&mut Registry) -> R) -> Option<R> {
        self.calls += 1;
        if self.dead {
            return None;
        }
        let reg = self.reg.as_mut().unwrap();
        match catch_unwind(AssertUnwindSafe(|| f(reg))) {
            Ok(r) => Some(r),
            Err(e) => {
                self.dead = true;
                let m = format!("{what} panicked: {} at {}", pmsg(&*e), last_panic_loc());
                self.fail(ALL, m);
                None
            }
        }
    }
    pub fn next_tok(&mut self) -> u32 {
        self.ctr += 1;
        tok_n(self.ctr)
    }
    pub fn handle(&self, e: usize) -> Entity {
        match e {
            SP_INVALID => Entity::INVALID,
            SP_BEYOND => unsafe { Entity::new_unchecked(self.issues.keys().next_back().map_or(0, |x| x + 1), 0) },
            SP_MAXIDX => unsafe { Entity::new_unchecked(0xFF_FFFF, 0) },
            e => self.ents[e].h,
        }
    }
    /// The live entity the handle denotes, by the model.
    pub fn target(&self, h: Entity) -> Option<usize> {
        self.live.get(&h.raw()).copied()
    }
    /// True if the model guarantees that the handle must be refused.
    pub fn must_refuse(&self, h: Entity) -> bool {
        !self.live.contains_key(&h.raw())
    }
    fn begin(&mut self) {
        self.expect.clear();
        self.last.clear();
    }
    /// Checks the destructor log and the allocator after an operation.
    pub fn end(&mut self, what: &str) {
        let mut got = take_drops();
        let mut want = std::mem::take(&mut self.expect);
        if !self.dead && (got.len() != want.len() || got != want) {
            got.sort_unstable();
            want.sort_unstable();
            if got != want {
                let f = |v: &Vec<(u8, u32)>| v.iter().take(8).map(|(k, t)| format!("{}:{}", kinds()[*k as usize].name, if *t == BAD { "damaged".into() } else { format!("{t:x}") })).collect::<Vec<_>>().join(",");
                let bad = if got.iter().any(|g| g.1 == BAD) { p(18) | p(3) } else { 0 };
                let m = format!("{what}: values dropped [{}], expected [{}]", f(&got), f(&want));
                self.fail(p(6) | bad, m);
            }
        }
        let e = alloc::take_err();
        if e != 0 {
            let m = format!("{what}: {}", alloc::err_text(e));
            self.fail(p(18), m);
        }
    }
    fn note_set(&mut self, m: u32, delta: i32) {
        if !self.sets.contains(&m) {
            self.sets.push(m);
        }
        let e = self.maxrows.entry(m).or_insert((0, 0));
        e.0 = (e.0 as i32 + delta) as u32;
        e.1 = e.1.max(e.0);
    }
    fn register(&mut self, what: &str, h: Entity, mask: u32, toks: [u32; NK]) {
        if h == Entity::INVALID {
            self.fail(p(1), format!("{what} returned the reserved invalid handle"));
        }
        if self.live.contains_key(&h.raw()) {
            self.fail(p(1) | p(2), format!("{what} returned handle {:#x}, which is live", h.raw()));
        }
        let n = self.issues.entry(h.index()).or_insert(0);
        let nth = *n;
        *n += 1;
        if self.issued.contains(&h.raw()) {
            // allowed only once the slot has been reused 256 times since that handle was issued
            let early = self.ents.iter().rev().find(|e| e.h == h).map_or(false, |e| nth - e.nth < 256);
            if early {
                self.fail(p(2), format!("{what} issued handle {:#x} again although its slot was reused fewer than 256 times", h.raw()));
            }
        }
        self.issued.insert(h.raw());
        if let Some(i) = self.released.iter().rposition(|x| *x == h.index()) {
            self.released.remove(i);
        }
        self.live.insert(h.raw(), self.ents.len());
        self.ents.push(Ent { h, mask, alive: true, toks, nth });
        self.note_set(mask, 1);
    }
    pub fn unregister(&mut self, i: usize) {
        self.ents[i].alive = false;
        let h = self.ents[i].h;
        self.live.remove(&h.raw());
        self.released.push(h.index());
        self.note_set(self.ents[i].mask, -1);
    }
    fn expect_drop(&mut self, k: usize, t: u32) {
        if kinds()[k].drop {
            self.expect.push((k as u8, t));
        }
    }
    fn expect_all(&mut self, i: usize) {
        let (m, t) = (self.ents[i].mask, self.ents[i].toks);
        for k in 0..NK {
            if m >> k & 1 == 1 {
                self.expect_drop(k, t[k]);
            }
        }
    }
    pub fn live_count(&self) -> usize {
        self.live.len()
    }
    pub fn live_ids(&self) -> Vec<usize> {
        let mut v: Vec<usize> = self.live.values().copied().collect();
        v.sort_unstable();
        v
    }

    // ------------------------------------------------------------ operations

    pub fn create(&mut self, g: usize) -> Option<usize> {
        let vt = &tables().g[g];
        let n = vt.ks.len();
        let mut t = [0u32; MAXG];
        for x in t.iter_mut().take(n) {
            *x = self.next_tok();
        }
        let name = || format!("create_entity({})", tables().name(g));
        let r = self.call("create_entity", |r| (vt.create)(r, &t[..n]))?;
        let room = self.live_count() < self.limit;
        match r {
            Ok(h) => {
                self.last = vec![1, h.raw() as u64];
                if !vt.wf {
                    self.fail(p(26), format!("{} accepted a malformed group", name()));
                    self.dead = true;
                    return None;
                }
                if !room {
                    self.fail(p(13), format!("{} succeeded beyond the entity limit", name()));
                }
                let mut toks = [0; NK];
                for i in 0..n {
                    toks[vt.ks[i] as usize] = t[i] & km(vt.ks[i] as usize);
                }
                self.register(&name(), h, vt.mask, toks);
                Some(self.ents.len() - 1)
            }
            Err(b) => {
                self.last = vec![0];
                if vt.wf && room {
                    self.fail(p(26) | p(15) | p(13), format!("{} was refused", name()));
                }
                for i in 0..n {
                    if b[i] != t[i] & km(vt.ks[i] as usize) {
                        self.fail(p(11) | p(6) | p(26), format!("{}: refused, but value {} of the tuple came back changed", name(), i));
                    }
                }
                None
            }
        }
    }
    pub fn destroy(&mut self, h: Entity) {
        let Some(r) = ({
            let tgt = self.target(h);
            if let Some(i) = tgt {
                self.expect_all(i);
            }
            self.call("destroy_entity", |r| lib(|| r.destroy_entity(h)))
        }) else {
            return;
        };
        self.last = vec![r as u64];
        match (self.target(h), r) {
            (Some(i), true) => self.unregister(i),
            (Some(_), false) => {
                self.expect.clear();
                self.fail(p(1), format!("destroy_entity of a live entity ({:#x}) returned false", h.raw()))
            }
            (None, true) => self.fail(p(2) | p(11), format!("destroy_entity of {:#x}, which is not live, returned true", h.raw())),
            _ => {}
        }
    }
    pub fn remove_as(&mut self, h: Entity, g: usize) {
        let vt = &tables().g[g];
        let Some(r) = self.call("remove_entity", |r| (vt.remove)(r, h)) else { return };
        let tgt = self.target(h);
        let should = vt.wf && tgt.map_or(false, |i| self.ents[i].mask == vt.mask);
        self.last = vec![r.is_some() as u64];
        let name = || format!("remove_entity::<{}>({:#x})", tables().name(g), h.raw());
        let bad = if vt.wf { 0 } else { p(26) };
        let stale = if tgt.is_none() { p(2) } else { 0 };
        match (r, should) {
            (Some(v), true) => {
                let i = tgt.unwrap();
                for (j, k) in vt.ks.iter().enumerate() {
                    self.last.push(v[j] as u64);
                    let want = self.ents[i].toks[*k as usize];
                    if v[j] != want {
                        self.fail(p(5) | p(10) | p(6), format!("{}: element {} is {:x}, the entity's {} was {:x}", name(), j, v[j], kinds()[*k as usize].name, want));
                    }
                }
                self.unregister(i);
            }
            (None, true) => self.fail(p(5), format!("{} returned None although the component set matches", name())),
            (Some(_), false) => {
                self.fail(p(5) | p(11) | bad | stale, format!("{} returned components although the group does not match the entity", name()));
                self.dead = true;
            }
            _ => {}
        }
    }
    pub fn add(&mut self, h: Entity, k: usize) {
        let t = self.next_tok();
        let vt = &tables().k[k];
        let Some(r) = self.call("add_component", |r| (vt.add)(r, h, t)) else { return };
        let t = t & km(k);
        let tgt = self.target(h);
        self.last = vec![r.is_ok() as u64];
        let name = || format!("add_component::<{}>({:#x})", kinds()[k].name, h.raw());
        match (r, tgt) {
            (Ok(()), Some(i)) => {
                let m = self.ents[i].mask;
                if m >> k & 1 == 1 {
                    self.fail(p(4), format!("{} succeeded although the component is present", name()));
                    self.dead = true;
                    return;
                }
                if m.count_ones() >= 14 {
                    self.fail(p(4) | p(15), format!("{} succeeded on an entity with 14 components", name()));
                    self.dead = true;
                    return;
                }
                self.note_set(m, -1);
                self.ents[i].mask |= 1 << k;
                self.ents[i].toks[k] = t;
                self.note_set(m | 1 << k, 1);
            }
            (Ok(()), None) => {
                self.fail(p(2) | p(11), format!("{} succeeded on a handle that is not live", name()));
                self.dead = true;
            }
            (Err(b), tgt) => {
                if b != t {
                    self.fail(p(4) | p(11) | p(6), format!("{}: refused, but the value came back changed", name()));
                }
                if let Some(i) = tgt {
                    let m = self.ents[i].mask;
                    if m >> k & 1 == 0 && m.count_ones() < 14 {
                        self.fail(p(4) | p(15), format!("{} was refused although the component is absent and there is room", name()));
                    }
                }
            }
        }
    }
    pub fn rem(&mut self, h: Entity, k: usize) {
        let vt = &tables().k[k];
        let Some(r) = self.call("remove_component", |r| (vt.rem)(r, h)) else { return };
        let tgt = self.target(h);
        self.last = vec![r.map_or(0, |t| 1 + t as u64)];
        let name = || format!("remove_component::<{}>({:#x})", kinds()[k].name, h.raw());
        match (r, tgt) {
            (Ok(t), Some(i)) => {
                let m = self.ents[i].mask;
                if m >> k & 1 == 0 || m.count_ones() == 1 {
                    self.fail(p(4) | p(11), format!("{} succeeded although the component is absent or the only one", name()));
                    self.dead = true;
                    return;
                }
                if t != self.ents[i].toks[k] {
                    let m = format!("{} returned {:x}, stored was {:x}", name(), t, self.ents[i].toks[k]);
                    self.fail(p(4) | p(3) | p(6), m);
                }
                self.note_set(m, -1);
                self.ents[i].mask &= !(1 << k);
                self.note_set(m & !(1 << k), 1);
            }
            (Ok(_), None) => {
                self.fail(p(2) | p(11), format!("{} succeeded on a handle that is not live", name()));
                self.dead = true;
            }
            (Err(()), Some(i)) => {
                let m = self.ents[i].mask;
                if m >> k & 1 == 1 && m.count_ones() > 1 {
                    self.fail(p(4) | p(15), format!("{} was refused although the component is present and not the only one", name()));
                }
            }
            _ => {}
        }
    }
    /// Reads the token at a pointer handed out by the library, after checking the pointer.
    pub fn rd(&mut self, k: usize, ptr: *const u8, what: &dyn Fn() -> String) -> u32 {
        let a = kinds()[k].align;
        if ptr.is_null() || ptr as usize % a != 0 {
            let m = format!("{}: null or misaligned reference {:p} for {}", what(), ptr, kinds()[k].name);
            self.fail(p(18), m);
            return BAD;
        }
        unsafe { (tables().k[k].tok)(ptr) }
    }
    pub fn set(&mut self, h: Entity, k: usize) {
        let vt = &tables().k[k];
        let t = self.next_tok();
        let Some(r) = self.call("get_component_mut", |r| (vt.get_mut)(r, h)) else { return };
        let tgt = self.target(h).filter(|i| self.ents[*i].mask >> k & 1 == 1);
        self.last = vec![r.is_some() as u64];
        self.check_presence("get_component_mut", h, k, r.is_some());
        if let (Some(ptr), Some(i)) = (r, tgt) {
            self.write_cell(i, k, ptr, t, "get_component_mut");
        }
    }
    fn write_cell(&mut self, i: usize, k: usize, ptr: *mut u8, t: u32, what: &str) {
        let old = self.rd(k, ptr, &|| what.to_string());
        let want = self.ents[i].toks[k];
        if old != want {
            let m = format!("{what}: e{i}'s {} reads {:x}, last given value is {:x}", kinds()[k].name, old, want);
            self.fail(p(3), m);
        }
        if old == BAD {
            self.dead = true;
            return;
        }
        unsafe { (tables().k[k].assign)(ptr, t) };
        self.ents[i].toks[k] = t & km(k);
        self.expect_drop(k, old);
    }
    pub fn setg(&mut self, h: Entity, g: usize) {
        let vt = &tables().g[g];
        let Some(r) = self.call("get_components_mut", |r| (vt.get_mut)(r, h)) else { return };
        let tgt = self.target(h);
        let should = vt.wf && tgt.map_or(false, |i| self.ents[i].mask & vt.mask == vt.mask);
        self.last = vec![r.is_some() as u64];
        if r.is_some() != should {
            self.group_presence("get_components_mut", h, g, r.is_some(), should);
            return;
        }
        if let (Some(ptrs), Some(i)) = (r, tgt) {
            for (j, k) in vt.ks.iter().enumerate() {
                let t = self.next_tok();
                self.write_cell(i, *k as usize, ptrs[j], t, "get_components_mut");
            }
        }
    }
    fn check_presence(&mut self, what: &str, h: Entity, k: usize, got: bool) {
        let tgt = self.target(h);
        let want = tgt.map_or(false, |i| self.ents[i].mask >> k & 1 == 1);
        if got != want {
            let stale = if tgt.is_none() { p(2) } else { p(4) };
            self.fail(stale, format!("{what}::<{}>({:#x}): {}, but the entity {}", kinds()[k].name, h.raw(), if got { "found" } else { "not found" }, if tgt.is_none() { "is not live" } else if want { "has it" } else { "does not have it" }));
        }
    }
    fn group_presence(&mut self, what: &str, h: Entity, g: usize, got: bool, want: bool) {
        let vt = &tables().g[g];
        let t = if !vt.wf { p(26) } else if self.target(h).is_none() { p(2) } else { p(4) | p(10) };
        self.fail(t, format!("{what}::<{}>({:#x}) answered {got}, should be {want}", tables().name(g), h.raw()));
    }
    /// Flips bit 6 of every token reached through a mutable iteration.
    pub fn iterset(&mut self, g: usize, mode: u8) {
        let vt = &tables().g[g];
        let mut chunks = std::mem::take(&mut self.chunks);
        chunks.clear();
        let pr = |_: &ArchetypeDescriptor| true;
        let ok = self.call(MODE_NAMES[mode as usize], |r| (vt.iter)(r, mode, &pr, &mut chunks));
        if ok.is_some() && self.check_chunks(g, mode, &chunks) {
            let exact = mode >= M_EXACT;
            let mut rows = 0u64;
            if !vt.wf && chunks.iter().any(|c| c.cols[0].1 > 0) {
                self.fail(p(26) | p(11), format!("{}::<{}> yields rows for a malformed group", MODE_NAMES[mode as usize], tables().name(g)));
                self.dead = true;
                self.chunks = chunks;
                return;
            }
            for c in &chunks {
                for r in 0..c.cols[0].1 {
                    rows += 1;
                    for (j, k) in vt.ks.iter().enumerate() {
                        let k = *k as usize;
                        let ptr = unsafe { c.cols[j].0.add(r * kinds()[k].size) };
                        let old = self.rd(k, ptr, &|| MODE_NAMES[mode as usize].to_string());
                        if old == BAD {
                            self.fail(p(3) | p(7), format!("{}::<{}>: damaged {} in row {r}", MODE_NAMES[mode as usize], tables().name(g), kinds()[k].name));
                            self.dead = true;
                            self.chunks = chunks;
                            return;
                        }
                        unsafe { (tables().k[k].assign)(ptr, old ^ 0x40) };
                        self.expect_drop(k, old);
                    }
                }
            }
            self.last = vec![rows];
            let ids = self.live_ids();
            for i in ids {
                let m = self.ents[i].mask;
                if vt.wf && ((exact && m == vt.mask) || (!exact && m & vt.mask == vt.mask)) {
                    for k in vt.ks {
                        self.ents[i].toks[*k as usize] ^= 0x40 & km(*k as usize);
                    }
                }
            }
        }
        self.chunks = chunks;
    }

    pub fn apply(&mut self, w: Word) {
        if self.dead {
            return;
        }
        self.begin();
        let (c, a, b) = dec(w);
        self.blame = 0;
        let n0 = self.live_count();
        let mut failed = false;
        match c {
            CREATE => failed = self.create(a).is_none(),
            DESTROY => {
                let h = self.handle(a);
                self.blame = if self.target(h).is_none() { p(2) | p(11) } else { p(1) };
                self.destroy(h);
            }
            REMOVE => {
                let h = self.handle(a);
                self.blame = p(5) | if self.target(h).is_none() { p(2) | p(11) } else { 0 };
                self.remove_as(h, b);
                failed = self.live_count() == n0;
            }
            ADD | REM => {
                let h = self.handle(a);
                self.blame = if self.target(h).is_none() { p(2) | p(11) } else { 0 };
                if c == ADD {
                    self.add(h, b)
                } else {
                    self.rem(h, b)
                }
                failed = self.last.first() == Some(&0);
            }
            SET => {
                let h = self.handle(a);
                self.set(h, b)
            }
            SETG => {
                let h = self.handle(a);
                self.setg(h, b)
            }
            ITERSET => self.iterset(a, b as u8),
            READ => {
                let h = self.handle(a);
                let vt = &tables().k[b];
                if let Some(r) = self.call("get_component", |r| (vt.get)(r, h)) {
                    let t = r.map(|x| self.rd(b, x, &|| "get_component".into()));
                    self.last = vec![t.map_or(0, |t| 1 + t as u64)];
                    self.check_presence("get_component", h, b, r.is_some());
                }
            }
            READG => {
                let h = self.handle(a);
                let vt = &tables().g[b];
                if let Some(r) = self.call("get_components", |r| (vt.get)(r, h)) {
                    self.last = vec![r.is_some() as u64];
                }
            }
            BULK => {
                for _ in 0..b {
                    self.create(a);
                    if self.dead {
                        break;
                    }
                }
            }
            CYCLE => {
                for _ in 0..b {
                    if let Some(i) = self.create(a) {
                        let h = self.ents[i].h;
                        self.destroy(h);
                        // keep the model small
                        if self.ents.len() > 1200 && !self.ents[self.ents.len() - 400].alive {
                            // (stale handles stay in the list; they are all still checked)
                        }
                    }
                    if self.dead {
                        break;
                    }
                }
            }
            RAMP => {
                'slots: for n in (0..b).chain(RAMP_TAIL) {
                    for round in 0..=n {
                        match self.create(a) {
                            Some(i) if round < n => {
                                let h = self.ents[i].h;
                                self.destroy(h);
                            }
                            _ => {}
                        }
                        if self.dead {
                            break 'slots;
                        }
                    }
                }
            }
            DESTROY_NTH => {
                let ids: Vec<usize> = self.live_ids().into_iter().step_by(a.max(1)).take(b).collect();
                for i in ids {
                    let h = self.ents[i].h;
                    self.destroy(h);
                    if self.dead {
                        break;
                    }
                }
            }
            ADD_ALL | REM_ALL => {
                for i in self.live_ids() {
                    let h = self.ents[i].h;
                    if c == ADD_ALL && self.ents[i].mask >> b & 1 == 0 {
                        self.add(h, b);
                    } else if c == REM_ALL && self.ents[i].mask >> b & 1 == 1 {
                        self.rem(h, b);
                    }
                    if self.dead {
                        break;
                    }
                }
            }
            SETS | LEVEL => {
                // SETS: the i-th non-empty subset of the twelve kinds below, reached one component at a time
                // LEVEL: those of a given size
                const U: [usize; 12] = [0, 1, 3, 4, 5, 6, 7, 10, 11, 12, 13, 14];
                let which: Vec<usize> = if c == SETS { (a..a + b).collect() } else { (1..4096usize).filter(|i| i.count_ones() as usize == a).take(b).collect() };
                for i in which {
                    let bits: Vec<usize> = (0..12).filter(|j| i >> j & 1 == 1).map(|j| U[j]).collect();
                    let Some(f) = bits.first() else { continue };
                    let g = tables().find(&[*f as u8]);
                    if let Some(e) = self.create(g) {
                        let h = self.ents[e].h;
                        for k in &bits[1..] {
                            self.add(h, *k);
                        }
                    }
                    if self.dead {
                        break;
                    }
                }
            }
            OBSERVE => {}
            MOVED => {
                let r = self.reg.take().unwrap();
                self.reg = Some(user(|| Box::new(*r)));
            }
            RESET => {
                for i in self.live_ids() {
                    self.expect_all(i);
                }
                let r = self.reg.take().unwrap();
                let x = catch_unwind(AssertUnwindSafe(|| lib(|| drop(*r))));
                let new = lib(Registry::default);
                self.reg = Some(user(|| Box::new(new)));
                if let Err(e) = x {
                    self.dead = true;
                    let m = format!("dropping the registry panicked: {} at {}", pmsg(&*e), last_panic_loc());
                    self.fail(ALL, m);
                }
                self.ents.clear();
                self.live.clear();
                self.order.clear();
                self.issues.clear();
                self.issued.clear();
                self.released.clear();
                self.sets.clear();
                self.maxrows.clear();
            }
            ITER => self.check_iter(a, (b & 15) as u8, ITER_PREDS[b >> 4]),
            _ => panic!("unknown op {w:x}"),
        }
        if failed {
            self.blame |= p(11);
        }
        self.end("operation");
        let mut k = Key::new();
        for x in &self.last {
            k.add(*x);
        }
        self.hist.push(k.get() as u64);
    }

    // ------------------------------------------------------------ observers

    fn check_live(&mut self) {
        let Some(v) = self.call("iter_entities", |r| {
            let mut it = lib(|| Box::new(r.iter_entities()));
            let mut v: Vec<u32> = Vec::new();
            while let Some(e) = lib(|| it.next()) {
                v.push(e.raw());
                if v.len() > 20_000_000 {
                    break;
                }
            }
            lib(|| drop(it));
            v
        }) else {
            return;
        };
        let mut v = v;
        v.sort_unstable();
        let mut w: Vec<u32> = self.live.keys().copied().collect();
        w.sort_unstable();
        if v != w {
            let sv: HashSet<u32> = v.iter().copied().collect();
            let sw: HashSet<u32> = w.iter().copied().collect();
            let miss: Vec<String> = w.iter().filter(|x| !sv.contains(x)).take(4).map(|x| format!("{x:#x}")).collect();
            let extra: Vec<String> = v.iter().filter(|x| !sw.contains(x)).take(4).map(|x| format!("{x:#x}")).collect();
            self.fail(p(1), format!("iter_entities: {} entities, {} expected; missing [{}], extra or repeated [{}]", v.len(), w.len(), miss.join(","), extra.join(",")));
        }
    }
    /// The iterations in the modes given, consumed in every other way, yield what calling `next` yields.
    fn check_styles(&mut self, o: &Obs) {
        let t = tables();
        let mask = o.groups.iter().fold(0, |m, g| m | t.g[*g].mask);
        let same = |a: &Chunk, b: &Chunk| a.cols == b.cols && a.ents == b.ents;
        for (g, f) in &t.styles {
            if t.g[*g].mask & !mask != 0 {
                continue;
            }
            for mode in (0..8u8).filter(|m| o.modes >> m & 1 == 1) {
                let preds: &[u32] = if mode < 4 { &[PRED_TRUE] } else { &o.preds };
                for pred in preds.iter().take(3) {
                    let pr = |d: &ArchetypeDescriptor| desc_mask(d).map_or(true, |m| pred_eval(*pred, m));
                    let mut base = vec![];
                    let name = MODE_NAMES[mode as usize];
                    if self.call(name, |r| if mode & 1 == 1 { (t.g[*g].iter)(r, mode, &pr, &mut base) } else { (t.g[*g].iter_ro)(r, mode, &pr, &mut base) }).is_none() {
                        return;
                    }
                    for s in 0..STYLES.len() {
                        let mut got = vec![];
                        if self.call(name, |r| f(r, mode, &pr, s, &mut got)).is_none() {
                            return;
                        }
                        let want: Vec<Chunk> = style_items(s, base.len()).into_iter().map(|i| base[i].clone()).collect();
                        // count yields a number only
                        if got.len() != want.len() || (s != 6 && !got.iter().zip(&want).all(|(a, b)| same(a, b))) {
                            self.fail(p(if mode < 4 { 7 } else { 9 }), format!("{name}::<{}>: consumed with {} it yields {} items, or other ones, than with next ({} in all)", t.name(*g), STYLES[s], got.len(), base.len()));
                        }
                    }
                }
            }
        }
        if o.live {
            let Some(base) = self.call("iter_entities", |r| styled_ents(r, NEXT)) else { return };
            for s in 0..STYLES.len() {
                let Some(got) = self.call("iter_entities", |r| styled_ents(r, s)) else { return };
                let want: Vec<Option<Entity>> = style_items(s, base.len()).into_iter().map(|i| base[i]).collect();
                if got.len() != want.len() || (s != 6 && got != want) {
                    self.fail(p(1), format!("iter_entities: consumed with {} it yields {} items, or other ones, than with next ({} in all)", STYLES[s], got.len(), base.len()));
                }
            }
        }
    }
    fn check_ents(&mut self, o: &Obs) {
        let t = tables();
        for i in self.live_ids() {
            let (h, m, toks) = (self.ents[i].h, self.ents[i].mask, self.ents[i].toks);
            for k in 0..NK {
                if o.kinds >> k & 1 == 0 {
                    continue;
                }
                let vt = &t.k[k];
                let has = self.call("has_component", |r| (vt.has)(r, h));
                if let Some(x) = has {
                    self.check_presence("has_component", h, k, x);
                }
                if let Some(x) = self.call("get_component", |r| (vt.get)(r, h)) {
                    self.check_presence("get_component", h, k, x.is_some());
                    if let (Some(ptr), true) = (x, m >> k & 1 == 1) {
                        let v = self.rd(k, ptr, &|| "get_component".into());
                        if v != toks[k] {
                            self.fail(p(3), format!("get_component::<{}>(e{i}) reads {:x}, last given value is {:x}", kinds()[k].name, v, toks[k]));
                        }
                    }
                }
                if let Some(x) = self.call("get_component_mut", |r| (vt.get_mut)(r, h)) {
                    self.check_presence("get_component_mut", h, k, x.is_some());
                    if let (Some(ptr), true) = (x, m >> k & 1 == 1) {
                        let v = self.rd(k, ptr, &|| "get_component_mut".into());
                        if v != toks[k] {
                            self.fail(p(3), format!("get_component_mut::<{}>(e{i}) reads {:x}, last given value is {:x}", kinds()[k].name, v, toks[k]));
                        }
                    }
                }
                if self.dead {
                    return;
                }
            }
            for &g in &o.groups {
                let vt = &t.g[g];
                let should = vt.wf && m & vt.mask == vt.mask;
                if let Some(x) = self.call("has_components", |r| (vt.has)(r, h)) {
                    if x != should {
                        self.group_presence("has_components", h, g, x, should);
                    }
                }
                let a = self.call("get_components", |r| (vt.get)(r, h));
                let b = self.call("get_components_mut", |r| (vt.get_mut)(r, h));
                for (x, what) in [(a, "get_components"), (b, "get_components_mut")] {
                    let Some(x) = x else { return };
                    if x.is_some() != should {
                        self.group_presence(what, h, g, x.is_some(), should);
                        continue;
                    }
                    if let Some(ptrs) = x {
                        for (j, k) in vt.ks.iter().enumerate() {
                            let k = *k as usize;
                            let v = self.rd(k, ptrs[j], &|| what.into());
                            if v != toks[k] {
                                self.fail(p(3) | p(10), format!("{what}::<{}>(e{i}): element {j} reads {:x}, the entity's {} is {:x}", t.name(g), v, kinds()[k].name, toks[k]));
                            }
                        }
                        if what == "get_components_mut" {
                            // distinct references
                            for j in 0..vt.ks.len() {
                                for l in 0..j {
                                    let (sj, sl) = (kinds()[vt.ks[j] as usize].size, kinds()[vt.ks[l] as usize].size);
                                    let (pj, pl) = (ptrs[j] as usize, ptrs[l] as usize);
                                    if sj > 0 && sl > 0 && pj < pl + sl && pl < pj + sj {
                                        self.fail(p(3) | p(18), format!("{what}::<{}>(e{i}): elements {l} and {j} overlap", t.name(g)));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    /// Structural checks of what one iteration yielded: equal lengths, sane pointers, disjoint mutable slices.
    fn check_chunks(&mut self, g: usize, mode: u8, chunks: &[Chunk]) -> bool {
        let vt = &tables().g[g];
        let n0 = self.fails.len();
        let tag = match mode {
            0..=3 => p(7),
            4..=7 => p(9) | p(7),
            _ => p(8),
        };
        let name = || format!("{}::<{}>", MODE_NAMES[mode as usize], tables().name(g));
        let mut rng: Vec<(usize, usize)> = vec![];
        for c in chunks {
            let n = c.ents.map_or(c.cols[0].1, |e| e.1);
            for (j, k) in vt.ks.iter().enumerate() {
                let (ptr, len) = c.cols[j];
                if len != n {
                    self.fail(tag | p(7), format!("{}: slices of one item have different lengths ({} and {})", name(), n, len));
                }
                let ki = &kinds()[*k as usize];
                if ptr.is_null() || ptr as usize % ki.align != 0 {
                    self.fail(p(18), format!("{}: null or misaligned slice {:p} for {}", name(), ptr, ki.name));
                }
                if mode & 1 == 1 && len * ki.size > 0 {
                    rng.push((ptr as usize, ptr as usize + len * ki.size));
                }
            }
            if let Some((ptr, len)) = c.ents {
                if ptr.is_null() || ptr as usize % 4 != 0 {
                    self.fail(p(18), format!("{}: null or misaligned entity slice", name()));
                }
                if mode & 1 == 1 && len > 0 {
                    rng.push((ptr as usize, ptr as usize + len * 4));
                }
            }
        }
        rng.sort_unstable();
        for w in rng.windows(2) {
            if w[1].0 < w[0].1 {
                self.fail(p(7), format!("{}: slices of one iteration overlap", name()));
                break;
            }
        }
        self.fails.len() == n0
    }
    /// Iterates in one mode and compares the rows with the model.
    pub fn check_iter(&mut self, g: usize, mode: u8, pred: u32) {
        let t = tables();
        let vt = &t.g[g];
        let mut chunks = std::mem::take(&mut self.chunks);
        chunks.clear();
        let consulted = std::cell::RefCell::new(Vec::<(u32, bool)>::new());
        let bad_desc = std::cell::Cell::new(None::<&'static str>);
        let pr = |d: &ArchetypeDescriptor| {
            let m = desc_mask(d);
            let Ok(m) = m else {
                bad_desc.set(Some(m.unwrap_err()));
                return true;
            };
            let r = pred_eval(pred, m);
            consulted.borrow_mut().push((m, r));
            r
        };
        let ok = self.call(MODE_NAMES[mode as usize], |r| if mode & 1 == 1 { (vt.iter)(r, mode, &pr, &mut chunks) } else { (vt.iter_ro)(r, mode, &pr, &mut chunks) });
        if ok.is_some() && self.check_chunks(g, mode, &chunks) {
            self.compare_rows(g, mode, pred, &chunks, &consulted.borrow(), bad_desc.get());
        }
        self.chunks = chunks;
    }
    fn compare_rows(&mut self, g: usize, mode: u8, pred: u32, chunks: &[Chunk], consulted: &[(u32, bool)], bad: Option<&str>) {
        let t = tables();
        let vt = &t.g[g];
        let filtered = (4..8).contains(&mode);
        let tag = match mode {
            0..=3 => p(7),
            4..=7 => p(9),
            _ => p(8),
        };
        let tag = if vt.wf { tag } else { p(26) };
        let name = || format!("{}::<{}>{}", MODE_NAMES[mode as usize], t.name(g), if filtered { format!(" with predicate '{}'", pred_name(pred)) } else { String::new() });
        if let Some(b) = bad {
            self.fail(p(9), format!("{}: predicate was given a wrong descriptor: {b}", name()));
        }
        let sel = |m: u32| vt.wf && if mode >= M_EXACT { m == vt.mask } else { m & vt.mask == vt.mask && (!filtered || pred_eval(pred, m)) };
        let n = vt.ks.len();
        let total: usize = chunks.iter().map(|c| c.cols[0].1).sum();
        let want_n = self.live.values().filter(|i| sel(self.ents[**i].mask)).count();
        if chunks.iter().any(|c| c.ents.is_some()) || want_n == 0 || total == 0 {
            let mut seen: HashSet<u32> = HashSet::with_capacity(total);
            for c in chunks {
                let Some((ep, len)) = c.ents else { continue };
                for r in 0..len {
                    let h = unsafe { *ep.add(r) };
                    let Some(i) = self.target(h) else {
                        self.fail(tag | p(7), format!("{}: row {r} belongs to {:#x}, which is not live", name(), h.raw()));
                        continue;
                    };
                    let m = self.ents[i].mask;
                    if !sel(m) {
                        self.fail(tag, format!("{}: yields e{i}, whose component set {} is not selected", name(), mask_name(m)));
                        continue;
                    }
                    if filtered && !consulted.iter().any(|c| *c == (m, true)) {
                        self.fail(tag, format!("{}: yields e{i} although the predicate never accepted its set {}", name(), mask_name(m)));
                    }
                    if !seen.insert(h.raw()) {
                        self.fail(tag, format!("{}: yields e{i} twice", name()));
                    }
                    for (j, k) in vt.ks.iter().enumerate() {
                        let k = *k as usize;
                        let v = self.rd(k, unsafe { c.cols[j].0.add(r * kinds()[k].size) }, &name);
                        if v != self.ents[i].toks[k] {
                            let m = format!("{}: e{i}'s row has {} {:x}, its value is {:x}", name(), kinds()[k].name, v, self.ents[i].toks[k]);
                            self.fail(tag | p(3) | p(10), m);
                        }
                    }
                    if self.fails.len() > 8 {
                        return;
                    }
                }
            }
            if total != want_n {
                self.fail(tag, format!("{}: yields {total} rows, {want_n} entities are selected", name()));
            }
        } else {
            let mut got: Vec<[u32; MAXG]> = Vec::with_capacity(total);
            for c in chunks {
                for r in 0..c.cols[0].1 {
                    let mut row = [0; MAXG];
                    for j in 0..n {
                        let k = vt.ks[j] as usize;
                        row[j] = self.rd(k, unsafe { c.cols[j].0.add(r * kinds()[k].size) }, &name);
                    }
                    got.push(row);
                }
            }
            let mut want: Vec<[u32; MAXG]> = Vec::with_capacity(want_n);
            for i in self.live.values() {
                let e = &self.ents[*i];
                if sel(e.mask) {
                    let mut row = [0; MAXG];
                    for j in 0..n {
                        row[j] = e.toks[vt.ks[j] as usize];
                    }
                    want.push(row);
                }
            }
            if got.len() != want.len() {
                self.fail(tag, format!("{}: yields {} rows, {} entities are selected", name(), got.len(), want.len()));
            } else {
                got.sort_unstable();
                want.sort_unstable();
                if got != want {
                    self.fail(tag | p(3) | p(10), format!("{}: the rows' values are not those of the selected entities", name()));
                }
            }
        }
    }
    /// Handles that must be refused.
    pub fn refused_handles(&self, wide: bool) -> Vec<Entity> {
        let mut v: Vec<u32> = vec![Entity::INVALID.raw()];
        let mut last: HashMap<u32, u32> = HashMap::new();
        for e in &self.ents {
            last.insert(e.h.index(), e.h.version() as u32);
        }
        let stale: Vec<u32> = self.ents.iter().filter(|e| !e.alive).map(|e| e.h.raw()).collect();
        let n = stale.len();
        for (j, s) in stale.iter().enumerate() {
            if j < 24 || j + 24 >= n {
                v.push(*s);
            }
        }
        let top = self.issues.keys().next_back().map_or(0, |x| x + 1);
        for i in [top, top + 1, 0xFF_FFFF, 0xFF_FFFE, 0x80_0000] {
            for ver in [0u32, 1, 254, 255] {
                v.push(i << 8 | ver);
            }
        }
        let mut slots: Vec<(u32, u32)> = last.into_iter().collect();
        slots.sort_unstable();
        let ns = slots.len();
        for (j, (i, ver)) in slots.into_iter().enumerate() {
            if j >= 8 && j + 8 < ns {
                continue;
            }
            if wide {
                for x in 0..256 {
                    v.push(i << 8 | x);
                }
            } else {
                for x in [ver + 255, ver + 1, ver + 2, 0, 255, ver ^ 128] {
                    v.push(i << 8 | x & 0xFF);
                }
            }
        }
        v.sort_unstable();
        v.dedup();
        v.into_iter().map(|r| unsafe { Entity::from_raw(r) }).filter(|h| self.must_refuse(*h)).collect()
    }
    /// Tries every operation on handles that must be refused.
    pub fn check_dead(&mut self, o: &Obs, wide: bool) {
        let t = tables();
        self.begin();
        let save = self.blame;
        self.blame |= p(2) | p(11);
        for h in self.refused_handles(wide) {
            self.destroy(h);
            for k in 0..NK {
                if o.kinds >> k & 1 == 0 {
                    continue;
                }
                let vt = &t.k[k];
                if let Some(x) = self.call("has_component", |r| (vt.has)(r, h)) {
                    self.check_presence("has_component", h, k, x);
                }
                if let Some(x) = self.call("get_component", |r| (vt.get)(r, h)) {
                    self.check_presence("get_component", h, k, x.is_some());
                }
                if let Some(x) = self.call("get_component_mut", |r| (vt.get_mut)(r, h)) {
                    self.check_presence("get_component_mut", h, k, x.is_some());
                }
                self.add(h, k);
                self.rem(h, k);
                if self.dead {
                    return;
                }
            }
            for &g in &o.dead_groups {
                let vt = &t.g[g];
                if let Some(x) = self.call("has_components", |r| (vt.has)(r, h)) {
                    if x {
                        self.group_presence("has_components", h, g, x, false);
                    }
                }
                if let Some(x) = self.call("get_components", |r| (vt.get)(r, h)) {
                    if x.is_some() {
                        self.group_presence("get_components", h, g, true, false);
                    }
                }
                if let Some(x) = self.call("get_components_mut", |r| (vt.get_mut)(r, h)) {
                    if x.is_some() {
                        self.group_presence("get_components_mut", h, g, true, false);
                    }
                }
                self.remove_as(h, g);
                if self.dead {
                    return;
                }
            }
        }
        self.end("operations on handles that are not live");
        self.blame = save;
    }
    pub fn observe(&mut self, o: &Obs) {
        if self.dead {
            return;
        }
        self.begin();
        if o.live {
            self.check_live();
        }
        if o.ents {
            self.check_ents(o);
        }
        if o.modes != 0 {
            for gi in 0..o.groups.len() {
                let g = o.groups[gi];
                for mode in 0..12u8 {
                    if o.modes >> mode & 1 == 0 || self.dead {
                        continue;
                    }
                    if (4..8).contains(&mode) {
                        for pi in 0..o.preds.len() {
                            self.check_iter(g, mode, o.preds[pi]);
                        }
                    } else {
                        self.check_iter(g, mode, PRED_TRUE);
                    }
                }
            }
        }
        if o.styles && !self.dead {
            self.check_styles(o);
        }
        self.end("observation");
        if o.dead && !self.dead {
            self.check_dead(o, false);
            // refused operations must have changed nothing
            if !self.dead {
                let save = self.blame;
                self.blame |= p(2) | p(11);
                self.check_live();
                let q = Obs { dead: false, modes: 0b0100_0000_0100, preds: vec![], ..o.clone() };
                self.check_ents(&q);
                for gi in 0..q.groups.len().min(4) {
                    self.check_iter(q.groups[gi], M_EMATCH, PRED_TRUE);
                }
                self.end("observation after refused operations");
                self.blame = save;
            }
        }
    }
    /// Drops the registry and checks destructors and memory.
    pub fn finish(&mut self) {
        if self.dead {
            if let Some(r) = self.reg.take() {
                std::mem::forget(r);
            }
            alloc::take_err();
            take_drops();
            return;
        }
        self.blame = 0;
        self.begin();
        for i in self.live_ids() {
            self.expect_all(i);
        }
        let r = self.reg.take().unwrap();
        let x = catch_unwind(AssertUnwindSafe(|| lib(|| drop(*r))));
        if let Err(e) = x {
            self.dead = true;
            let m = format!("dropping the registry panicked: {} at {}", pmsg(&*e), last_panic_loc());
            self.fail(ALL, m);
            return;
        }
        self.end("dropping the registry");
        let left = alloc::live_blocks() - self.blocks0;
        if left != 0 {
            self.fail(p(18), format!("{left} memory blocks are not released when the registry is dropped"));
        }
    }
    pub fn into_fails(mut self) -> Vec<Fail> {
        std::mem::take(&mut self.fails)
    }

    // ------------------------------------------------------------ comparable views

    /// Everything observable, in order (handles, chunks, rows, values), without comparing to the model.
    pub fn snapshot(&mut self, kinds_mask: u32, groups: &[usize], values: bool) -> Vec<u64> {
        let t = tables();
        let mut out = vec![];
        if self.dead {
            return out;
        }
        if let Some(v) = self.call("iter_entities", |r| {
            let mut v = vec![];
            let mut it = lib(|| Box::new(r.iter_entities()));
            while let Some(e) = lib(|| it.next()) {
                v.push(e.raw() as u64);
            }
            lib(|| drop(it));
            v
        }) {
            out.push(v.len() as u64);
            out.extend(v);
        }
        for &g in groups {
            let mut chunks = std::mem::take(&mut self.chunks);
            for mode in [M_EMATCH, M_EXACT + 2] {
                chunks.clear();
                let pr = |_: &ArchetypeDescriptor| true;
                let vt = &t.g[g];
                if self.call("iteration", |r| (vt.iter_ro)(r, mode, &pr, &mut chunks)).is_none() {
                    break;
                }
                out.push(0xC0FFEE00 + mode as u64);
                for c in &chunks {
                    let Some((ep, len)) = c.ents else { continue };
                    for r in 0..len {
                        out.push(unsafe { *ep.add(r) }.raw() as u64);
                        if values {
                            for (j, k) in vt.ks.iter().enumerate() {
                                let k = *k as usize;
                                if r < c.cols[j].1 {
                                    out.push(self.rd(k, unsafe { c.cols[j].0.add(r * kinds()[k].size) }, &|| "iteration".into()) as u64);
                                }
                            }
                        }
                    }
                }
            }
            self.chunks = chunks;
        }
        let hs: Vec<Entity> = self.ents.iter().map(|e| e.h).collect();
        for h in hs {
            for k in 0..NK {
                if kinds_mask >> k & 1 == 1 {
                    let vt = &t.k[k];
                    match self.call("get_component", |r| (vt.get)(r, h)) {
                        Some(Some(x)) => {
                            let v = self.rd(k, x, &|| "get_component".into());
                            out.push(2 + if values { v as u64 } else { 0 });
                        }
                        Some(None) => out.push(1),
                        None => out.push(0),
                    }
                }
            }
        }
        out
    }
    /// Canonical key of the state: everything that determines future behaviour, up to renaming of values.
    pub fn key(&mut self, kinds_mask: u32) -> u128 {
        let mut k = Key::new();
        let t = tables();
        for (i, n) in &self.issues {
            k.add((*i as u64) << 16 | (*n as u64 & 0xFF) | (if *n >= 256 { 0x100 } else { 0 }));
        }
        k.add(0xFFFF_FFFF_0001);
        let mut ids: Vec<(u32, u32)> = self.live.values().map(|i| (self.ents[*i].h.raw(), self.ents[*i].mask)).collect();
        ids.sort_unstable();
        for (h, m) in ids {
            k.add((h as u64) << 32 | m as u64);
        }
        k.add(0xFFFF_FFFF_0002);
        for s in &self.released {
            k.add(*s as u64);
        }
        k.add(0xFFFF_FFFF_0003);
        for s in &self.sets {
            k.add(*s as u64);
            let mx = self.maxrows.get(s).map_or(0, |x| x.1);
            k.add(mx.max(128).next_power_of_two() as u64);
        }
        if self.dead {
            k.add(0xDEAD);
            return k.get();
        }
        // observed row and chunk order
        let mut chunks = std::mem::take(&mut self.chunks);
        for kk in 0..NK {
            if kinds_mask >> kk & 1 == 0 {
                continue;
            }
            let Some(g) = t.of_mask(1 << kk) else { continue };
            chunks.clear();
            let pr = |_: &ArchetypeDescriptor| true;
            if self.call("iteration", |r| (t.g[g].iter_ro)(r, M_EMATCH, &pr, &mut chunks)).is_none() {
                break;
            }
            for c in &chunks {
                let Some((ep, len)) = c.ents else { continue };
                k.add(0xFFFF_FFFE_0000 + len as u64);
                for r in 0..len {
                    k.add(unsafe { *ep.add(r) }.raw() as u64);
                }
            }
        }
        self.chunks = chunks;
        k.get()
    }
}

impl Drop for World {
    fn drop(&mut self) {
        if let Some(r) = self.reg.take() {
            if self.dead {
                std::mem::forget(r);
            } else {
                let _ = catch_unwind(AssertUnwindSafe(|| lib(|| drop(*r))));
            }
        }
    }
}

pub fn mask_name(m: u32) -> String {
    let v: Vec<&str> = (0..NK).filter(|k| m >> k & 1 == 1).map(|k| kinds()[k].name).collect();
    format!("{{{}}}", v.join(","))
}

/// The set a descriptor describes, after checking that the descriptor is consistent in itself.
pub fn desc_mask(d: &ArchetypeDescriptor) -> Result<u32, &'static str> {
    let mut m = 0u32;
    let c = d.components();
    if c.len() != d.len() as usize {
        return Err("component list and length disagree");
    }
    for x in c {
        let Some(k) = kind_of_id(x.component_type_id().into_u16()) else { return Err("unknown component type") };
        if m >> k & 1 == 1 {
            return Err("component listed twice");
        }
        let ki = &kinds()[k as usize];
        if x.size() as usize != ki.size || x.align() as usize != ki.align {
            return Err("wrong size or alignment");
        }
        m |= 1 << k;
    }
    for k in 0..NK {
        if (tables().k[k].desc_has)(d) != (m >> k & 1 == 1) {
            return Err("has_component disagrees with the component list");
        }
    }
    Ok(m)
}
