//! P13: registries with up to 16,777,215 entities. The states at and around the limit and the last growth of storage
//! are built once per distribution; every short sequence of operations is then run from each in a forked copy.
use crate::core::*;
use crate::forks::*;
use crate::props::Eng;
use mcbase::alloc::{self, lib};
use mcbase::comps::*;
use mcbase::groups::*;
use shard_ecs::{Entity, Registry};
use std::time::Duration;

pub fn engines() -> Vec<Eng> {
    vec![Eng { code: CODE, explore, run, show }]
}
const CODE: Word = 1013;
pub const LIMIT: usize = 16_777_215;
const P23: usize = 1 << 23;

// sets as bit masks over these kinds
const KS: [u8; 4] = [T::K, D::K, B::K, Z::K];
const ST: u8 = 1;
const STD: u8 = 3;
const SB: u8 = 4;
const SZ: u8 = 8;
const SALL: u8 = 15;
fn gvt(s: u8) -> Option<&'static GroupVt> {
    use std::sync::OnceLock;
    static C: OnceLock<Vec<(u8, GroupVt)>> = OnceLock::new();
    C.get_or_init(|| {
        vec![
            (1, vt::<T>()), (2, vt::<D>()), (4, vt::<B>()), (8, vt::<Z>()), (3, vt::<(D, T)>()), (5, vt::<(T, B)>()), (9, vt::<(Z, T)>()),
            (6, vt::<(D, B)>()), (7, vt::<(B, T, D)>()), (10, vt::<(Z, D)>()), (12, vt::<(B, Z)>()), (15, vt::<(T, D, B, Z)>()),
            (11, vt::<(T, Z, D)>()), (13, vt::<(Z, B, T)>()), (14, vt::<(D, B, Z)>()),
        ]
    })
    .iter()
    .find(|x| x.0 == s)
    .map(|x| &x.1)
}
fn kvts() -> &'static [KindVt; 4] {
    use std::sync::OnceLock;
    static C: OnceLock<[KindVt; 4]> = OnceLock::new();
    C.get_or_init(|| [kvt::<T>(), kvt::<D>(), kvt::<B>(), kvt::<Z>()])
}
fn want(tok: u32, k: usize) -> u32 {
    tok & kinds()[KS[k] as usize].mask
}

const DEAD: u8 = 0;
struct Lean {
    r: Option<Box<Registry>>,
    /// Per slot index: component set (0 = no live entity), version, token of all its components.
    set: Vec<u8>,
    ver: Vec<u8>,
    tok: Vec<u32>,
    live: usize,
    per_set: [usize; 16],
    ctr: u32,
    fails: Vec<Fail>,
}
const MEANT: u64 = 1 << 13;
type R = Option<()>;

impl Lean {
    fn new() -> Lean {
        set_logging(false);
        alloc::take_err();
        Lean { r: Some(Box::new(lib(Registry::default))), set: vec![DEAD; 1 << 24], ver: vec![0; 1 << 24], tok: vec![0; 1 << 24], live: 0, per_set: [0; 16], ctr: 0, fails: vec![] }
    }
    fn bad(&mut self, m: String) -> R {
        self.fails.push(Fail { props: MEANT, msg: m });
        None
    }
    fn reg(&mut self) -> &mut Registry {
        self.r.as_mut().unwrap()
    }
    fn h(&self, slot: usize) -> Entity {
        unsafe { Entity::new_unchecked(slot as u32, self.ver[slot]) }
    }
    fn create(&mut self, s: u8) -> R {
        let g = gvt(s).unwrap();
        self.ctr = (self.ctr + 1) & 0xFF_FFFF;
        let t = self.ctr;
        let toks = [t; MAXG];
        let n = g.ks.len();
        match (g.create)(self.r.as_mut().unwrap(), &toks[..n]) {
            Ok(e) => {
                if self.live >= LIMIT {
                    return self.bad(format!("creation succeeds with {} live entities", self.live));
                }
                let i = e.index() as usize;
                if self.set[i] != DEAD || e == Entity::INVALID {
                    return self.bad(format!("creation number {} returns the handle ({i}, v{}), which is live or invalid", self.live + 1, e.version()));
                }
                self.set[i] = s;
                self.ver[i] = e.version();
                self.tok[i] = t;
                self.live += 1;
                self.per_set[s as usize] += 1;
            }
            Err(b) => {
                if self.live < LIMIT {
                    return self.bad(format!("creation is refused with {} live entities", self.live));
                }
                for (j, k) in g.ks.iter().enumerate() {
                    if b[j] != t & kinds()[*k as usize].mask {
                        return self.bad("a value came back changed from a refused creation".into());
                    }
                }
            }
        }
        Some(())
    }
    fn gone(&mut self, i: usize) {
        self.per_set[self.set[i] as usize] -= 1;
        self.set[i] = DEAD;
        self.live -= 1;
    }
    fn destroy(&mut self, i: usize) -> R {
        let h = self.h(i);
        let r = lib(|| self.reg().destroy_entity(h));
        if r != (self.set[i] != DEAD) {
            return self.bad(format!("destroy_entity(slot {i}) returns {r}"));
        }
        if r {
            self.gone(i);
        }
        Some(())
    }
    /// remove_entity as its own set (or as {T} if it is gone).
    fn remove(&mut self, i: usize) -> R {
        let h = self.h(i);
        let s = self.set[i];
        let g = gvt(if s == DEAD { ST } else { s }).unwrap();
        let r = (g.remove)(self.reg(), h);
        match (r, s != DEAD) {
            (Some(v), true) => {
                for (j, k) in g.ks.iter().enumerate() {
                    if v[j] != self.tok[i] & kinds()[*k as usize].mask {
                        return self.bad(format!("remove_entity(slot {i}) returns another value"));
                    }
                }
                self.gone(i);
            }
            (None, false) => {}
            (r, _) => return self.bad(format!("remove_entity(slot {i}) returns {}", if r.is_some() { "components" } else { "None" })),
        }
        Some(())
    }
    fn add(&mut self, i: usize, k: usize) -> R {
        let h = self.h(i);
        let t = self.tok[i];
        let s = self.set[i];
        let r = (kvts()[k].add)(self.reg(), h, t);
        let should = s != DEAD && s >> k & 1 == 0;
        if r.is_ok() != should || (!should && r != Err(want(t, k))) {
            return self.bad(format!("add_component::<{}>(slot {i}) {}", kinds()[KS[k] as usize].name, if r.is_ok() { "succeeds" } else { "is refused or returns another value" }));
        }
        if should {
            self.per_set[s as usize] -= 1;
            self.set[i] |= 1 << k;
            self.per_set[self.set[i] as usize] += 1;
        }
        Some(())
    }
    fn rem(&mut self, i: usize, k: usize) -> R {
        let h = self.h(i);
        let s = self.set[i];
        let r = (kvts()[k].rem)(self.reg(), h);
        let should = s != DEAD && s >> k & 1 == 1 && s.count_ones() > 1;
        if r.is_ok() != should || (should && r != Ok(want(self.tok[i], k))) {
            return self.bad(format!("remove_component::<{}>(slot {i}) {}", kinds()[KS[k] as usize].name, if r.is_ok() { "succeeds or returns another value" } else { "is refused" }));
        }
        if should {
            self.per_set[s as usize] -= 1;
            self.set[i] &= !(1 << k);
            self.per_set[self.set[i] as usize] += 1;
        }
        Some(())
    }
    /// Lookups of one entity.
    fn look(&mut self, i: usize) -> R {
        let h = self.h(i);
        let s = self.set[i];
        for k in 0..4 {
            let has = (kvts()[k].has)(self.reg(), h);
            let get = (kvts()[k].get)(self.reg(), h);
            let should = s >> k & 1 == 1;
            if has != should || get.is_some() != should {
                return self.bad(format!("slot {i}: has_component::<{}> is {has}, get_component {}", kinds()[KS[k] as usize].name, if get.is_some() { "finds it" } else { "finds nothing" }));
            }
            if let Some(p) = get {
                let v = unsafe { (kvts()[k].tok)(p) };
                if v != want(self.tok[i], k) {
                    return self.bad(format!("slot {i}: {} reads {v:x}, should be {:x}", kinds()[KS[k] as usize].name, want(self.tok[i], k)));
                }
            }
        }
        Some(())
    }
    /// Rows of the matching iteration for each kind; every row if `full`, else those at the ends of the slices.
    fn audit(&mut self, full: bool) -> R {
        let pr = |_: &shard_ecs::archetype_descriptor::ArchetypeDescriptor| true;
        for k in 0..4 {
            let g = gvt(1 << k).unwrap();
            let mut chunks: Vec<Chunk> = vec![];
            (g.iter_ro)(self.r.as_ref().unwrap(), M_EMATCH, &pr, &mut chunks);
            let n: usize = chunks.iter().map(|c| c.cols[0].1).sum();
            let should: usize = (0..16).filter(|s| s >> k & 1 == 1).map(|s| self.per_set[s]).sum();
            if n != should {
                return self.bad(format!("iteration over {} yields {n} rows, should be {should}", kinds()[KS[k] as usize].name));
            }
            let mut seen = if full { vec![0u64; 1 << 18] } else { vec![] };
            for c in &chunks {
                let (ep, len) = c.ents.unwrap();
                if len != c.cols[0].1 {
                    return self.bad("slices of different lengths".into());
                }
                let es = unsafe { std::slice::from_raw_parts(ep, len) };
                let size = kinds()[KS[k] as usize].size;
                let mut r = 0;
                while r < len {
                    if !full && r == 300 && len > 700 {
                        r = len - 300;
                    }
                    let e = es[r];
                    let i = e.index() as usize;
                    if self.set[i] >> k & 1 == 0 || self.ver[i] != e.version() {
                        return self.bad(format!("iteration over {}: row {r} belongs to ({i}, v{}), which is not live or lacks it", kinds()[KS[k] as usize].name, e.version()));
                    }
                    if full {
                        if seen[i >> 6] >> (i & 63) & 1 == 1 {
                            return self.bad(format!("iteration over {}: slot {i} has two rows", kinds()[KS[k] as usize].name));
                        }
                        seen[i >> 6] |= 1 << (i & 63);
                    }
                    let v = unsafe { (kvts()[k].tok)(c.cols[0].0.add(r * size)) };
                    if v != want(self.tok[i], k) {
                        return self.bad(format!("iteration over {}: row {r} of slot {i} is {v:x}, should be {:x}", kinds()[KS[k] as usize].name, want(self.tok[i], k)));
                    }
                    r += 1;
                }
            }
        }
        if full {
            let mut n = 0usize;
            let mut wrong = None;
            let r = self.r.as_ref().unwrap();
            for e in lib(|| r.iter_entities()) {
                let i = e.index() as usize;
                if self.set[i] == DEAD || self.ver[i] != e.version() {
                    wrong = Some(e);
                }
                n += 1;
            }
            if wrong.is_some() || n != self.live {
                return self.bad(format!("iter_entities yields {n} entities, should be {}; not live: {wrong:?}", self.live));
            }
            let mut i = 0;
            while i < 1 << 24 {
                if self.set[i] != DEAD {
                    self.look(i)?;
                }
                i += if i % 65536 < 600 { 1 } else { 61 };
            }
        }
        let e = alloc::take_err();
        if e != 0 {
            return self.bad(alloc::err_text(e));
        }
        Some(())
    }
    fn finish(mut self) -> Vec<Fail> {
        if self.fails.is_empty() {
            let r = self.r.take().unwrap();
            lib(|| drop(*r));
            let e = alloc::take_err();
            if e != 0 {
                self.bad(format!("dropping the registry: {}", alloc::err_text(e)));
            }
        } else {
            std::mem::forget(self.r.take());
        }
        std::mem::take(&mut self.fails)
    }
    fn many(&mut self, s: u8, upto: usize) -> R {
        while self.live < upto {
            self.create(s)?;
            let n = self.live;
            // around each growth of the storage
            if n > 100 && (n + 2 & n + 1 == 0 || n + 1 & n == 0 || n & n - 1 == 0 || n - 1 & n - 2 == 0 || n - 2 & n - 3 == 0) {
                self.audit(n & n - 1 == 0 && n >= 1 << 20)?;
            }
        }
        Some(())
    }
    fn build(&mut self, b: u64) -> R {
        match b {
            0 => self.many(ST, LIMIT)?,
            1 => self.many(ST, LIMIT - 1)?,
            2 => self.many(ST, P23)?,
            3 => {
                self.many(ST, P23)?;
                self.many(STD, LIMIT)?
            }
            4 => self.many(SZ, LIMIT)?,
            5 => self.many(SB, LIMIT)?,
            6 => self.many(SALL, LIMIT)?,
            7 => {
                // three sets in turn
                while self.live < LIMIT {
                    self.create([ST, STD, SB][self.live % 3])?;
                }
            }
            8 => {
                // filled, thinned out, filled again with another set
                self.many(ST, LIMIT)?;
                for i in (0..1 << 24).step_by(2) {
                    if self.set[i] != DEAD {
                        self.destroy(i)?;
                    }
                }
                self.audit(true)?;
                while self.live < LIMIT {
                    self.create(STD)?;
                }
            }
            9 => {
                // everything moved to another set
                self.many(ST, LIMIT)?;
                for i in 0..1 << 24 {
                    if self.set[i] != DEAD {
                        self.add(i, 3)?;
                    }
                }
            }
            10 => {
                // everything destroyed, oldest first, and made again
                self.many(STD, LIMIT)?;
                for i in 0..1 << 24 {
                    if self.set[i] != DEAD {
                        self.destroy(i)?;
                    }
                }
                self.audit(true)?;
                while self.live < LIMIT {
                    self.create(ST)?;
                }
            }
            11 => self.many(STD, LIMIT - 2)?,
            12 => {
                self.many(STD, P23 - 1)?;
                self.many(ST, LIMIT - 1)?
            }
            13 => self.many(SZ | SB, P23)?,
            _ => {}
        }
        self.audit(true)
    }
    fn slot(&self, f: u64) -> usize {
        // a fixed entity whether it is still live or not
        let top = self.set.iter().rposition(|s| *s != DEAD).unwrap_or(0);
        match f {
            0 => 0,
            1 => top / 2 + 1,
            _ => LIMIT.min(top + 1) - 1,
        }
    }
}
const BASES: [&str; 14] = [
    "{T}: 16,777,215",
    "{T}: 16,777,214",
    "{T}: 2^23",
    "{T}: 2^23, {T,D}: 2^23-1",
    "{Z}: 16,777,215 (zero-sized)",
    "{B}: 16,777,215",
    "{T,D,B,Z}: 16,777,215",
    "{T}, {T,D}, {B} in turn up to 16,777,215",
    "{T}: 16,777,215; every other destroyed and {T,D} created instead",
    "{T}: 16,777,215, all given Z",
    "{T,D}: 16,777,215; all destroyed and {T} created instead",
    "{T,D}: 16,777,213",
    "{T,D}: 2^23-1, {T}: 2^23-1",
    "{B,Z}: 2^23",
];
fn ops() -> Vec<u64> {
    let mut v = vec![];
    for s in [ST, STD, SB] {
        v.push(s as u64);
    }
    for f in 0..3u64 {
        v.extend([0x10 | f, 0x20 | f]);
        for k in [1u64, 2] {
            v.extend([0x100 | k << 4 | f, 0x200 | k << 4 | f]);
        }
    }
    v
}
fn apply(l: &mut Lean, slots: &[usize; 3], o: u64) -> R {
    let f = slots[(o & 3) as usize % 3];
    match o {
        0..=15 => l.create(o as u8),
        0x10..=0x1F => l.destroy(f),
        0x20..=0x2F => l.remove(f),
        0x100..=0x1FF => l.add(f, (o >> 4 & 15) as usize),
        _ => l.rem(f, (o >> 4 & 15) as usize),
    }
}
fn opname(o: u64) -> String {
    let f = ["the first entity", "an entity in the middle", "the last entity"][(o & 3) as usize % 3];
    let k = |o: u64| kinds()[KS[(o >> 4 & 3) as usize] as usize].name;
    match o {
        1 => "create T".into(),
        3 => "create (D,T)".into(),
        4 => "create B".into(),
        0x10..=0x1F => format!("destroy {f}"),
        0x20..=0x2F => format!("remove {f} as its own set"),
        0x100..=0x1FF => format!("add {} to {f}", k(o)),
        _ => format!("remove {} from {f}", k(o)),
    }
}
/// Continues from the built state; at the end everything near the changes is looked at (everything if `full`).
fn go(l: &mut Lean, seq: &[u64], full: bool) -> R {
    let slots = [l.slot(0), l.slot(1), l.slot(2)];
    for o in seq {
        apply(l, &slots, *o)?;
        for s in slots {
            l.look(s)?;
        }
        l.audit(false)?;
    }
    if !full {
        return Some(());
    }
    l.audit(true)?;
    // whatever happened, the limit can be reached and is reported, and room is found again after a destruction
    if l.live + 8 >= LIMIT {
        while l.live < LIMIT {
            l.create(ST)?;
        }
        for s in [ST, STD, SB, SZ, SALL] {
            l.create(s)?;
        }
        let i = l.set.iter().position(|s| *s != DEAD).unwrap();
        // often enough for the slot to go through all its versions
        for n in 0..260 {
            let s = [SB, STD][n & 1];
            l.destroy(i)?;
            l.create(s)?;
            l.create(s)?;
        }
        l.audit(false)?;
    }
    Some(())
}
fn depth(b: u64, th: bool) -> usize {
    match (b, th) {
        (0 | 1 | 2 | 3 | 7 | 11 | 12 | 13, false) => 2,
        (0 | 3 | 7, true) => 3,
        (_, true) => 2,
        _ => 1,
    }
}
fn bases(th: bool) -> Vec<u64> {
    if th { (0..14).collect() } else { vec![0, 2, 3, 4, 7, 8, 9, 12] }
}
fn seqs(d: usize) -> Vec<Vec<u64>> {
    let a = ops();
    let mut all: Vec<Vec<u64>> = vec![vec![]];
    let mut last: Vec<Vec<u64>> = vec![vec![]];
    for _ in 0..d {
        let mut n = vec![];
        for s in &last {
            for o in &a {
                let mut t = s.clone();
                t.push(*o);
                n.push(t);
            }
        }
        all.extend(n.clone());
        last = n;
    }
    all
}
fn explore(cx: &Cx) {
    let th = cx.thorough();
    let bs = bases(th);
    let par = cx.threads.min(8);
    // Each distribution in its own process; what failed is reported through a shared page.
    let found = crate::shared::<u64>(bs.len() * 8);
    let limit = Duration::from_secs(if th { 3 * 3600 } else { 300 });
    let sz = |b: u64| seqs(depth(b, th)).len();
    let r = fork_map(bs.len(), par, limit, &|x| {
        let b = bs[x];
        let slot = unsafe { found.add(8 * x) };
        let mut l = Lean::new();
        if l.build(b).is_none() {
            return std::mem::take(&mut l.fails);
        }
        let ss = seqs(depth(b, th));
        let lp = std::cell::RefCell::new(l);
        let outs = fork_map(ss.len(), if th { 2 } else { 1 }, Duration::from_secs(60), &|j| {
            let mut l = lp.borrow_mut();
            go(&mut l, &ss[j], ss[j].len() <= 1);
            std::mem::take(&mut l.fails)
        });
        let l = lp.into_inner();
        for (j, o) in outs.into_iter().enumerate() {
            if !matches!(o, Out::Fine) {
                unsafe {
                    *slot = ss[j].len() as u64 + 1;
                    for (k, w) in ss[j].iter().enumerate() {
                        *slot.add(1 + k) = *w;
                    }
                }
                std::mem::forget(l);
                return match o {
                    Out::Failed(f) => f,
                    _ => vec![Fail { props: MEANT, msg: "lost".into() }],
                };
            }
        }
        l.finish()
    });
    for (x, o) in r.into_iter().enumerate() {
        let b = bs[x];
        let mut w = vec![CODE, b];
        unsafe {
            let n = *found.add(8 * x);
            for k in 1..n {
                w.push(*found.add(8 * x + k as usize));
            }
        }
        cx.executions.fetch_add(1 + sz(b) as u64, std::sync::atomic::Ordering::Relaxed);
        cx.states(1 + sz(b) as u64);
        cx.transitions(match b {
            8..=10 => 3 * LIMIT as u64,
            2 | 13 => P23 as u64,
            _ => LIMIT as u64,
        } + sz(b) as u64);
        match o {
            Out::Fine => {
                cx.note(format!("{}: all {} sequences of up to {} of {} operations", BASES[b as usize], sz(b), depth(b, th), ops().len()));
                cx.sample(&[CODE, b, ops()[x % ops().len()]]);
            }
            Out::Failed(f) if f[0].msg != "lost" => {
                cx.judge(&w, f);
            }
            _ => {
                // once more in this process, whose crashes and hangs are attributed to the case
                cx.case(&w, || run(cx.tier, &w));
            }
        }
    }
}
fn run(_: Tier, w: &[Word]) -> Vec<Fail> {
    let mut l = Lean::new();
    if l.build(w[1]).is_some() {
        go(&mut l, &w[2..], w.len() <= 3);
    }
    l.finish()
}
fn show(_: Tier, w: &[Word]) -> String {
    let s: Vec<String> = w[2..].iter().map(|o| opname(*o)).collect();
    format!("registry with {}; then {}", BASES[w[1] as usize], s.join("; "))
}
