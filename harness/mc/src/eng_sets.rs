//! P14: registries and stores with up to 65,534 component sets. An entity is walked through all of them; from the
//! states at and just below the limit every short sequence of operations is run in a forked copy.
use crate::core::*;
use crate::forks::*;
use crate::props::Eng;
use mcbase::alloc::{self, lib};
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::archetype_registry::ArchetypeRegistry;
use shard_ecs::*;
use std::collections::{HashMap, HashSet};
use std::time::Duration;

pub fn engines() -> Vec<Eng> {
    vec![Eng { code: CODE, explore, run, show }]
}
/// All sets at once, each with a living entity; for the properties about values, sets and iterations.
pub fn engines_many() -> Vec<Eng> {
    vec![Eng { code: CODE_MANY, explore: explore_many, run: run_many, show: show_many }]
}
const CODE: Word = 1014;
const CODE_MANY: Word = 1042;
const MAX: usize = 65_534;
const N: usize = 17;
const MEANT: u64 = 1 << 14;

pub struct K<const I: usize>(u8);
impl<const I: usize> Component for K<I> {
    const NAME: &'static str = "K";
    const ID: ComponentTypeId = ComponentTypeId::from_u16((I * 3855) as u16);
}
struct Vt {
    has: fn(&Registry, Entity) -> bool,
    get: fn(&Registry, Entity) -> Option<u8>,
    add: fn(&mut Registry, Entity, u8) -> Result<(), u8>,
    rem: fn(&mut Registry, Entity) -> Result<u8, ()>,
    rows: fn(&mut Registry, bool) -> Vec<(Entity, u8)>,
    exact: fn(&mut Registry, bool) -> Vec<(Entity, u8)>,
    filtered: fn(&mut Registry, bool, &dyn Fn(&ArchetypeDescriptor) -> bool) -> Vec<(Entity, u8)>,
    create: fn(&mut Registry, u8) -> Result<Entity, u8>,
}
fn v<const I: usize>() -> Vt {
    Vt {
        has: |r, e| lib(|| r.has_component::<K<I>>(e)),
        get: |r, e| lib(|| r.get_component::<K<I>>(e)).map(|x| x.0),
        add: |r, e, x| lib(|| r.add_component(e, K::<I>(x))).map_err(|k| k.0),
        rem: |r, e| lib(|| r.remove_component::<K<I>>(e)).map(|k| k.0),
        rows: |r, m| {
            let mut o = vec![];
            if m {
                lib(|| r.iter_entity_components_matching_mut::<K<I>>()).for_each(|(e, k)| o.extend(e.iter().copied().zip(k.iter().map(|k| k.0))));
            } else {
                lib(|| r.iter_entity_components_matching::<K<I>>()).for_each(|(e, k)| o.extend(e.iter().copied().zip(k.iter().map(|k| k.0))));
            }
            o
        },
        exact: |r, m| {
            if m {
                let (e, k) = lib(|| r.iter_entity_components_exact_mut::<K<I>>());
                return e.iter().copied().zip(k.iter().map(|k| k.0)).collect();
            }
            let (e, k) = lib(|| r.iter_entity_components_exact::<K<I>>());
            e.iter().copied().zip(k.iter().map(|k| k.0)).collect()
        },
        filtered: |r, m, f| {
            let mut o = vec![];
            // (the bound is that of the registry borrow)
            let f: &'static dyn Fn(&ArchetypeDescriptor) -> bool = unsafe { std::mem::transmute(f) };
            if m {
                lib(|| r.iter_filtered_entity_components_matching_mut::<K<I>, _>(f)).for_each(|(e, k)| o.extend(e.iter().copied().zip(k.iter().map(|k| k.0))));
            } else {
                lib(|| r.iter_filtered_entity_components_matching::<K<I>, _>(f)).for_each(|(e, k)| o.extend(e.iter().copied().zip(k.iter().map(|k| k.0))));
            }
            o
        },
        create: |r, x| lib(|| r.create_entity(K::<I>(x))).map_err(|k| k.0),
    }
}
fn vts() -> &'static [Vt; N] {
    use std::sync::OnceLock;
    static C: OnceLock<[Vt; N]> = OnceLock::new();
    C.get_or_init(|| [v::<0>(), v::<1>(), v::<2>(), v::<3>(), v::<4>(), v::<5>(), v::<6>(), v::<7>(), v::<8>(), v::<9>(), v::<10>(), v::<11>(), v::<12>(), v::<13>(), v::<14>(), v::<15>(), v::<16>()])
}
/// Tuples created and removed as a whole.
struct Tup {
    mask: u32,
    create: fn(&mut Registry, u8) -> Result<Entity, bool>,
    remove: fn(&mut Registry, Entity) -> Option<bool>,
    n: fn(&Registry) -> usize,
}
macro_rules! tup {
    ($($i:tt $j:tt),*) => { Tup {
        mask: 0 $(| 1 << $i)*,
        create: |r, x| lib(|| r.create_entity(($(K::<$i>(x.wrapping_add($i))),*))).map_err(|t| true $(&& t.$j.0 == x.wrapping_add($i))*),
        remove: |r, e| lib(|| r.remove_entity::<($(K<$i>),*)>(e)).map(|t| { let b = t.0.0.wrapping_sub(FIRST[[$($i),*][0]]); true $(&& t.$j.0 == b.wrapping_add($i))* }),
        n: |r| lib(|| r.iter_entity_components_exact::<($(K<$i>),*)>()).0.len(),
    } };
}
const FIRST: [u8; N] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16];
fn tups() -> &'static [Tup; 8] {
    use std::sync::OnceLock;
    static C: OnceLock<[Tup; 8]> = OnceLock::new();
    C.get_or_init(|| {
        [
            tup!(0 0, 1 1),
            tup!(15 0, 16 1),
            tup!(3 0, 2 1, 1 2, 0 3),
            tup!(0 0, 16 1),
            tup!(16 0, 5 1, 7 2),
            tup!(0 0, 1 1, 2 2, 3 3, 4 4, 5 5, 6 6, 7 7, 8 8, 9 9, 10 10, 11 11, 12 12, 13 13),
            tup!(16 0, 15 1, 14 2, 13 3, 12 4, 11 5, 10 6, 9 7, 8 8, 7 9, 6 10, 5 11, 4 12, 3 13),
            tup!(14 0, 15 1, 16 2, 1 3, 8 4),
        ]
    })
}

struct Ent {
    h: Entity,
    mask: u32,
    val: u8,
    live: bool,
}
struct W {
    r: Option<Box<Registry>>,
    sets: HashSet<u32>,
    ents: Vec<Ent>,
    live: HashSet<u32>,
    ctr: u8,
    fails: Vec<Fail>,
    blocks0: i64,
}
type R = Option<()>;
fn names(m: u32) -> String {
    let v: Vec<String> = (0..N).filter(|k| m >> k & 1 == 1).map(|k| k.to_string()).collect();
    format!("{{{}}}", v.join(","))
}
impl W {
    fn new() -> W {
        alloc::take_err();
        let blocks0 = alloc::live_blocks();
        let r = lib(Registry::default);
        W { r: Some(Box::new(r)), sets: HashSet::new(), ents: vec![], live: HashSet::new(), ctr: 0, fails: vec![], blocks0 }
    }
    fn bad(&mut self, m: String) -> R {
        self.badp(0, m)
    }
    /// A failure that contradicts the given properties as well as P14.
    fn badp(&mut self, props: u64, m: String) -> R {
        let n = self.sets.len();
        self.fails.push(Fail { props: MEANT | props, msg: format!("{m} (with {n} component sets)") });
        None
    }
    fn reg(&mut self) -> &mut Registry {
        self.r.as_mut().unwrap()
    }
    fn val(&self, e: usize, k: usize) -> u8 {
        self.ents[e].val.wrapping_add(k as u8)
    }
    /// True if the set exists or may be made.
    fn room(&self, m: u32) -> bool {
        self.sets.contains(&m) || self.sets.len() < MAX
    }
    fn toggle(&mut self, e: usize, k: usize) -> R {
        let (h, m, x) = (self.ents[e].h, self.ents[e].mask, self.val(e, k));
        let live = self.ents[e].live;
        if m >> k & 1 == 1 {
            let to = m & !(1 << k);
            let should = live && to != 0 && self.room(to);
            let r = (vts()[k].rem)(self.reg(), h);
            if r.is_ok() != should || (should && r != Ok(x)) {
                return self.badp(if r.is_ok() && should { p(3) } else { p(4) }, format!("removing {k} from {}: {}, should {}", names(m), if r.is_ok() { "succeeds" } else { "fails" }, if should { "yield its value" } else { "fail" }));
            }
            if should {
                self.sets.insert(to);
                self.ents[e].mask = to;
            }
        } else {
            let to = m | 1 << k;
            let should = live && to.count_ones() <= 14 && self.room(to);
            let r = (vts()[k].add)(self.reg(), h, x);
            if r.is_ok() != should || (!should && r != Err(x)) {
                return self.badp(p(4), format!("adding {k} to {}: {}, should {}", names(m), if r.is_ok() { "succeeds" } else { "fails" }, if should { "succeed" } else { "fail and return the value" }));
            }
            if should {
                self.sets.insert(to);
                self.ents[e].mask = to;
            }
        }
        Some(())
    }
    fn created(&mut self, m: u32, r: Result<Entity, bool>, val: u8) -> R {
        let should = self.room(m);
        match r {
            Ok(h) => {
                if !should {
                    return self.bad(format!("creating an entity with {} succeeds", names(m)));
                }
                if h == Entity::INVALID || !self.live.insert(h.raw()) {
                    return self.badp(p(1), "creation returns a live or invalid handle".into());
                }
                self.sets.insert(m);
                self.ents.push(Ent { h, mask: m, val, live: true });
            }
            Err(same) => {
                if should {
                    return self.bad(format!("creating an entity with {} fails", names(m)));
                }
                if !same {
                    return self.bad(format!("a refused creation with {} returns other values", names(m)));
                }
            }
        }
        Some(())
    }
    fn single(&mut self, k: usize) -> R {
        self.ctr = self.ctr.wrapping_add(37);
        let (x, v) = (self.ctr, self.ctr.wrapping_add(k as u8));
        let r = (vts()[k].create)(self.reg(), v).map_err(|y| y == v);
        self.created(1 << k, r, x)
    }
    fn tuple(&mut self, t: usize) -> R {
        self.ctr = self.ctr.wrapping_add(37);
        let x = self.ctr;
        let r = (tups()[t].create)(self.reg(), x);
        self.created(tups()[t].mask, r, x)
    }
    fn remove(&mut self, e: usize, t: usize) -> R {
        let h = self.ents[e].h;
        let should = self.ents[e].live && self.ents[e].mask == tups()[t].mask;
        let r = (tups()[t].remove)(self.reg(), h);
        if r.is_some() != should || r == Some(false) {
            return self.badp(p(5), format!("removing an entity with {} as {} yields {r:?}", names(self.ents[e].mask), names(tups()[t].mask)));
        }
        if should {
            self.ents[e].live = false;
            self.live.remove(&h.raw());
        }
        Some(())
    }
    fn destroy(&mut self, e: usize) -> R {
        let h = self.ents[e].h;
        let r = lib(|| self.reg().destroy_entity(h));
        if r != self.ents[e].live {
            return self.badp(p(1), format!("destroy_entity returns {r}"));
        }
        self.ents[e].live = false;
        self.live.remove(&h.raw());
        Some(())
    }
    fn look(&mut self, e: usize) -> R {
        let (h, m, live) = (self.ents[e].h, self.ents[e].mask, self.ents[e].live);
        for k in 0..N {
            let should = live && m >> k & 1 == 1;
            let has = (vts()[k].has)(self.reg(), h);
            let get = (vts()[k].get)(self.reg(), h);
            if has != should || get != should.then(|| self.val(e, k)) {
                return self.badp(if !live { p(2) } else if has != should || get.is_some() != should { p(4) } else { p(3) }, format!("entity with {}: has_component::<K{k}> is {has}, get_component yields {get:?}", if live { names(m) } else { "nothing (destroyed)".into() }));
            }
        }
        Some(())
    }
    /// Iterations; matching ones, which pass all sets, only if `full`.
    fn rows(&mut self, full: bool) -> R {
        for k in 0..N {
            let mut want: Vec<(u32, u8)> = (0..self.ents.len()).filter(|e| self.ents[*e].live && self.ents[*e].mask >> k & 1 == 1).map(|e| (self.ents[e].h.raw(), self.val(e, k))).collect();
            let mut wx: Vec<(u32, u8)> = (0..self.ents.len()).filter(|e| self.ents[*e].live && self.ents[*e].mask == 1 << k).map(|e| (self.ents[e].h.raw(), self.val(e, k))).collect();
            want.sort_unstable();
            wx.sort_unstable();
            // odd sizes only
            let odd = |d: &ArchetypeDescriptor| d.len() % 2 == 1;
            let live: HashMap<u32, u32> = if full { self.ents.iter().filter(|e| e.live).map(|e| (e.h.raw(), e.mask)).collect() } else { HashMap::new() };
            let wo: Vec<(u32, u8)> = if full { want.iter().copied().filter(|(h, _)| live[h].count_ones() % 2 == 1).collect() } else { vec![] };
            for m in if full { 0..6 } else { 4..6 } {
                let r = self.r.as_mut().unwrap();
                let g = match m {
                    0 | 1 => (vts()[k].rows)(r, m == 1),
                    2 | 3 => (vts()[k].filtered)(r, m == 3, &odd),
                    _ => (vts()[k].exact)(r, m == 5),
                };
                let mut g: Vec<(u32, u8)> = g.into_iter().map(|(e, x)| (e.raw(), x)).collect();
                g.sort_unstable();
                let w = [&want, &want, &wo, &wo, &wx, &wx][m];
                if g != *w {
                    let (n, l) = (["matching", "mutable matching", "filtered", "mutable filtered", "exact", "mutable exact"][m], w.len());
                    return self.badp(p([7, 7, 9, 9, 8, 8][m]), format!("{n} iteration over K{k} yields {} rows, or other values than given; should be {l}", g.len()));
                }
            }
        }
        for t in tups() {
            let n = (t.n)(self.r.as_ref().unwrap());
            let want = self.ents.iter().filter(|e| e.live && e.mask == t.mask).count();
            if n != want {
                return self.badp(p(8), format!("exact iteration over {} yields {n} rows, should be {want}", names(t.mask)));
            }
        }
        let mut l: Vec<u32> = lib(|| self.r.as_ref().unwrap().iter_entities()).map(|e| e.raw()).collect();
        let mut w: Vec<u32> = self.ents.iter().filter(|e| e.live).map(|e| e.h.raw()).collect();
        l.sort_unstable();
        w.sort_unstable();
        if l != w {
            return self.badp(p(1), format!("iter_entities yields {} entities, should be {}", l.len(), w.len()));
        }
        Some(())
    }
    /// Walks entity 0 to the set.
    fn go(&mut self, to: u32, limit: usize) -> R {
        while self.ents[0].mask != to && self.sets.len() < limit {
            let m = self.ents[0].mask;
            let (off, on) = (m & !to, to & !m);
            let k = if off != 0 && m.count_ones() > 1 { off.trailing_zeros() } else { on.trailing_zeros() };
            self.toggle(0, k as usize)?;
            self.look(0)?;
        }
        Some(())
    }
    /// Makes `limit` sets; walk number `walk` decides the order.
    fn build(&mut self, walk: u64, limit: usize) -> R {
        self.single(0)?;
        self.single(0)?;
        self.tuple(0)?;
        self.tuple(2)?;
        self.tuple(5)?;
        let mut i = 1u32;
        while self.sets.len() < limit {
            let g = (i ^ i >> 1) & 0x1FFFF;
            // the Gray code with the kinds in different order
            let to = match walk {
                0 => g,
                1 => (g.reverse_bits() >> 15) & 0x1FFFF,
                2 => (g << 5 | g >> 12) & 0x1FFFF,
                _ => !g & 0x1FFFF,
            };
            i += 1;
            if to == 0 || to.count_ones() > 14 {
                continue;
            }
            self.go(to, limit)?;
            if i % 8192 == 0 {
                self.rows(true)?;
            }
        }
        self.rows(true)
    }
    /// Through all sets once more, in the order of their number: none may be new.
    fn again(&mut self, step: usize) -> R {
        let mut all: Vec<u32> = self.sets.iter().copied().collect();
        all.sort_unstable();
        let n = self.sets.len();
        for to in all.into_iter().step_by(step) {
            // only through sets that exist
            let mut steps = 0;
            while self.ents[0].mask != to {
                let m = self.ents[0].mask;
                let (off, on) = (m & !to, to & !m);
                let k = (0..N as u32).find(|k| (off | on) >> k & 1 == 1 && { let x = m ^ 1 << k; x != 0 && x.count_ones() <= 14 && self.sets.contains(&x) });
                let Some(k) = k else { break };
                self.toggle(0, k as usize)?;
                steps += 1;
                if steps > 40 {
                    break;
                }
            }
            self.look(0)?;
        }
        if self.sets.len() != n {
            return self.bad("walk through existing sets made new ones".into());
        }
        self.rows(true)
    }
    fn finish(mut self) -> Vec<Fail> {
        if !self.fails.is_empty() {
            std::mem::forget(self.r.take());
            return std::mem::take(&mut self.fails);
        }
        let r = self.r.take().unwrap();
        lib(|| drop(*r));
        let e = alloc::take_err();
        if e != 0 {
            self.bad(alloc::err_text(e));
        }
        let d = alloc::live_blocks() - self.blocks0;
        if d != 0 {
            self.bad(format!("{d} blocks still allocated after the registry was dropped"));
        }
        std::mem::take(&mut self.fails)
    }
}

// operations continuing from a built state
const O_TOGGLE: u64 = 0; // | e << 8 | k
const O_SINGLE: u64 = 1 << 16;
const O_TUPLE: u64 = 2 << 16;
const O_DESTROY: u64 = 3 << 16;
const O_REMOVE: u64 = 4 << 16;
fn ops(th: bool) -> Vec<u64> {
    let mut v: Vec<u64> = (0..N as u64).map(|k| O_TOGGLE | k).collect();
    v.extend([0u64, 1, 16, 15].map(|k| O_TOGGLE | 1 << 8 | k));
    v.extend([2u64, 16].map(|k| O_TOGGLE | 2 << 8 | k));
    v.extend([13u64, 14].map(|k| O_TOGGLE | 4 << 8 | k));
    v.extend([0u64, 16].map(|k| O_SINGLE | k));
    v.extend((0..8u64).map(|t| O_TUPLE | t));
    v.extend([O_DESTROY, O_DESTROY | 3 << 8, O_REMOVE | 2 << 8, O_REMOVE | 4 << 8 | 5]);
    if th {
        v.extend([2u64, 9, 14].map(|k| O_TOGGLE | 3 << 8 | k));
    }
    v
}
fn apply(w: &mut W, o: u64) -> R {
    let (e, k) = ((o >> 8 & 0xFF) as usize, (o & 0xFF) as usize);
    match o & !0xFFFF {
        O_TOGGLE => w.toggle(e, k),
        O_SINGLE => w.single(k),
        O_TUPLE => w.tuple(k),
        O_DESTROY => w.destroy(e),
        _ => w.remove(e, k),
    }
}
fn opname(o: u64) -> String {
    let (e, k) = (o >> 8 & 0xFF, (o & 0xFF) as usize);
    match o & !0xFFFF {
        O_TOGGLE => format!("add or remove K{k} on e{e}"),
        O_SINGLE => format!("create K{k}"),
        O_TUPLE => format!("create {}", names(tups()[k].mask)),
        O_DESTROY => format!("destroy e{e}"),
        _ => format!("remove e{e} as {}", names(tups()[k].mask)),
    }
}
fn go(w: &mut W, seq: &[u64], full: bool) -> R {
    for o in seq {
        apply(w, *o)?;
    }
    for e in 0..w.ents.len() {
        w.look(e)?;
    }
    w.rows(full)
}

/// The store itself: one-component descriptors of every identifier that can be told apart, or two-component ones.
fn store(kind: u64) -> Vec<Fail> {
    let mut fails = vec![];
    let desc = |i: usize| -> ArchetypeDescriptor {
        let mut ids: Vec<u16> = match kind {
            0 => vec![i as u16],
            1 => vec![(65_534 - i) as u16],
            // pairs of 512 components
            2 => {
                // the i-th pair a < b
                let (mut a, mut n) = (0usize, i);
                while n >= 511 - a {
                    n -= 511 - a;
                    a += 1;
                }
                vec![(a * 127) as u16, ((a + 1 + n) * 127) as u16]
            }
            // mixed sizes
            _ => (0..=i % 14).map(|j| ((i + j * 97) % 65_535) as u16).collect(),
        };
        ids.sort_unstable();
        crate::eng_store::desc(&ids)
    };
    // (identifier 65,535 is the invalid one)
    let total = MAX + if kind < 2 { 1 } else { 2 };
    let ds: Vec<ArchetypeDescriptor> = (0..total).map(desc).collect();
    let same = |a: &ArchetypeDescriptor, b: &ArchetypeDescriptor| a.components().iter().map(|c| c.component_type_id().into_u16()).eq(b.components().iter().map(|c| c.component_type_id().into_u16()));
    let mut s = lib(ArchetypeRegistry::default);
    let mut at: Vec<u16> = Vec::with_capacity(MAX);
    let mut seen = vec![false; 1 << 16];
    macro_rules! bad {
        ($($x:tt)*) => {{ fails.push(Fail { props: MEANT, msg: format!($($x)*) }); return fails; }};
    }
    for (i, d) in ds.iter().take(MAX).enumerate() {
        if lib(|| s.find_archetype(d)).is_some() {
            bad!("set number {i} is found before it was created");
        }
        let Some((x, ok)) = lib(|| s.find_or_create_archetype(d)).map(|(x, a)| (x, same(a.descriptor(), d))) else { bad!("set number {i} is refused") };
        if !ok || seen[x as usize] {
            bad!("set number {i} is given index {x}, which is in use, or storage for another set");
        }
        seen[x as usize] = true;
        at.push(x);
    }
    for (i, d) in ds.iter().enumerate() {
        match lib(|| s.find_or_create_archetype(d)).map(|(x, a)| (x, same(a.descriptor(), d))) {
            Some((x, ok)) if i < MAX => {
                if !ok || x != at[i] {
                    bad!("set number {i} is now at index {x}, was {}", at[i]);
                }
            }
            None if i >= MAX => {}
            r => bad!("set number {i} with {MAX} sets: {r:?}"),
        }
        let f = lib(|| s.find_archetype(d)).map(|a| same(a.descriptor(), d));
        if f != (i < MAX).then_some(true) {
            bad!("find_archetype of set number {i}: {f:?}");
        }
        let f = lib(|| s.find_archetype_mut(d)).map(|a| same(a.descriptor(), d));
        if f != (i < MAX).then_some(true) {
            bad!("find_archetype_mut of set number {i}: {f:?}");
        }
    }
    for i in 0..MAX {
        if !same(s[at[i]].descriptor(), &ds[i]) {
            bad!("index {} holds another set than number {i}", at[i]);
        }
    }
    lib(|| drop(s));
    let e = alloc::take_err();
    if e != 0 {
        bad!("{}", alloc::err_text(e));
    }
    fails
}

fn seqs(th: bool, d: usize) -> Vec<Vec<u64>> {
    let a = ops(th);
    let mut all: Vec<Vec<u64>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..d {
        last = last.iter().flat_map(|s| a.iter().map(move |o| { let mut t = s.clone(); t.push(*o); t })).collect();
        all.extend(last.clone());
    }
    all
}
fn explore(cx: &Cx) {
    let th = cx.thorough();
    // the store
    let kinds: Vec<u64> = vec![0, 1, 2, 3];
    cx.par(kinds.len(), |i| {
        let w = [CODE, 1, kinds[i]];
        cx.case(&w, || store(kinds[i]));
        cx.transitions(4 * MAX as u64);
        cx.states(MAX as u64);
    });
    cx.note(format!("store filled with {MAX} sets in {} different ways; every set looked up again, two more refused", kinds.len()));
    if cx.stopped() {
        return;
    }
    // the registry
    let jobs: Vec<(u64, usize, usize)> = if th {
        (0..4).flat_map(|w| (0..3).map(move |b| (w, MAX - b, if w == 0 { 3 } else { 2 }))).collect()
    } else {
        vec![(0, MAX, 2), (0, MAX - 1, 2), (1, MAX, 1), (0, MAX - 2, 1), (2, MAX, 1), (3, MAX, 1)]
    };
    let found = crate::shared::<u64>(jobs.len() * 8);
    let r = fork_map(jobs.len(), cx.threads.min(6), Duration::from_secs(if th { 7200 } else { 300 }), &|x| {
        let (walk, limit, depth) = jobs[x];
        let slot = unsafe { found.add(8 * x) };
        let mut w = W::new();
        if w.build(walk, limit).is_none() {
            return std::mem::take(&mut w.fails);
        }
        let ss = seqs(th, depth);
        let wp = std::cell::RefCell::new(w);
        let outs = fork_map(ss.len(), if depth > 1 { 3 } else { 1 }, Duration::from_secs(60), &|j| {
            let mut w = wp.borrow_mut();
            go(&mut w, &ss[j], ss[j].len() < if th { 3 } else { 2 });
            std::mem::take(&mut w.fails)
        });
        let mut w = wp.into_inner();
        for (j, o) in outs.into_iter().enumerate() {
            if !matches!(o, Out::Fine) {
                unsafe {
                    *slot = ss[j].len() as u64 + 1;
                    for (k, x) in ss[j].iter().enumerate() {
                        *slot.add(1 + k) = *x;
                    }
                }
                std::mem::forget(w);
                return match o {
                    Out::Failed(f) => f,
                    _ => vec![Fail { props: MEANT, msg: "lost".into() }],
                };
            }
        }
        w.again(if th { 1 } else { 7 });
        w.finish()
    });
    for (x, o) in r.into_iter().enumerate() {
        let (walk, limit, depth) = jobs[x];
        let n = seqs(th, depth).len() as u64;
        let mut w = vec![CODE, 2, walk, limit as u64];
        unsafe {
            let n = *found.add(8 * x);
            for k in 1..n {
                w.push(*found.add(8 * x + k as usize));
            }
        }
        cx.executions.fetch_add(n + 1, std::sync::atomic::Ordering::Relaxed);
        cx.states(limit as u64 + n);
        cx.transitions(limit as u64 + n * depth as u64);
        match o {
            Out::Fine => {
                cx.note(format!("registry with {limit} sets (walk {walk}): all {n} sequences of up to {depth} of {} operations", ops(th).len()));
                cx.sample(&[CODE, 2, walk, limit as u64, ops(th)[x * 5 % ops(th).len()], ops(th)[3]]);
            }
            Out::Failed(f) if f[0].msg != "lost" => {
                cx.judge(&w, f);
            }
            _ => {
                cx.case(&w, || run(cx.tier, &w));
            }
        }
    }
}
fn run(_: Tier, c: &[Word]) -> Vec<Fail> {
    if c[1] == 1 {
        return store(c[2]);
    }
    let mut w = W::new();
    if w.build(c[2], c[3] as usize).is_some() && go(&mut w, &c[4..], true).is_some() && c.len() == 4 {
        w.again(1);
    }
    w.finish()
}
fn show(_: Tier, c: &[Word]) -> String {
    if c[1] == 1 {
        return format!("archetype store filled with 65,534 sets, way {}", c[2]);
    }
    let s: Vec<String> = c[4..].iter().map(|o| opname(*o)).collect();
    format!("registry with {} component sets (walk {}: e0 goes through them; e1 K0, e2 {{0,1}}, e3 {{0,1,2,3}}, e4 14 components); then {}", c[3], c[2], s.join("; "))
}

/// The sets of way `kind`, in an order in which each but the one-component ones is one component larger than an earlier one.
fn all_sets(kind: u64) -> Vec<u32> {
    let mut v: Vec<u32> = (1..1u32 << N).filter(|m| m.count_ones() <= 14).collect();
    match kind {
        0 => {}
        // kinds in the opposite order
        1 => v.iter_mut().for_each(|m| *m = m.reverse_bits() >> (32 - N)),
        // smallest sets first
        _ => v.sort_by_key(|m| (m.count_ones(), *m)),
    }
    v.truncate(MAX);
    v
}
/// One living entity in each of 65,534 sets.
fn fill(w: &mut W, kind: u64) -> R {
    for to in all_sets(kind) {
        let order: Vec<u32> = match kind {
            1 => (0..N as u32).rev().collect(),
            _ => (0..N as u32).collect(),
        };
        let mut ks = order.into_iter().filter(|k| to >> k & 1 == 1);
        w.single(ks.next().unwrap() as usize)?;
        let e = w.ents.len() - 1;
        for k in ks {
            w.toggle(e, k as usize)?;
        }
        if w.ents[e].mask != to {
            return w.badp(p(4), format!("no entity with {} can be made", names(to)));
        }
    }
    Some(())
}
/// In the filled registry: every operation that adds or removes one component, for the entity of every `step`th set,
/// and back; then all entities that remain are destroyed, from both ends, with iterations in between.
fn many(w: &mut W, kind: u64, step: usize) -> R {
    fill(w, kind)?;
    let n = w.ents.len();
    w.rows(true)?;
    for e in 0..n {
        w.look(e)?;
    }
    let mut refused = vec![];
    for e in (0..n).step_by(step) {
        for k in 0..N {
            let m = w.ents[e].mask;
            w.toggle(e, k)?;
            if w.ents[e].mask != m {
                w.look(e)?;
                w.toggle(e, k)?;
            } else {
                refused.push((e, k));
            }
        }
        w.look(e)?;
    }
    w.rows(true)?;
    for e in (0..n).step_by(2) {
        w.destroy(e)?;
    }
    w.rows(true)?;
    for e in (0..n).step_by(7) {
        w.look(e)?;
    }
    for t in 0..tups().len() {
        w.tuple(t)?;
    }
    // what was refused before is still refused: sets do not go away
    for (e, k) in refused.into_iter().step_by(5) {
        w.toggle(e, k)?;
    }
    for k in 0..N {
        w.single(k)?;
    }
    w.rows(true)?;
    for e in (0..w.ents.len()).rev() {
        if w.ents[e].live {
            w.look(e)?;
            w.destroy(e)?;
        }
    }
    w.rows(true)
}
fn explore_many(cx: &Cx) {
    let th = cx.thorough();
    let kinds = 3;
    let r = fork_map(kinds, cx.threads, Duration::from_secs(if th { 3600 } else { 300 }), &|x| {
        let mut w = W::new();
        many(&mut w, x as u64, if th { 1 } else { 11 });
        w.finish()
    });
    let mut n = 0;
    for (x, o) in r.into_iter().enumerate() {
        let w = [CODE_MANY, x as u64, th as u64];
        let steps = (MAX * N / if th { 1 } else { 11 }) as u64;
        cx.executions.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        cx.states(MAX as u64);
        cx.transitions(steps * 2 + MAX as u64);
        n += steps;
        match o {
            Out::Fine => {}
            Out::Failed(f) => {
                cx.judge(&w, f);
            }
            Out::Lost => {
                cx.case(&w, || run_many(cx.tier, &w));
            }
        }
    }
    cx.note(format!("registries with a living entity in each of {MAX} component sets, made in {kinds} orders: {n} single-component operations and back; all iterations before and after"));
}
fn run_many(_: Tier, c: &[Word]) -> Vec<Fail> {
    let mut w = W::new();
    many(&mut w, c[1], if c[2] == 1 { 1 } else { 11 });
    w.finish()
}
fn show_many(_: Tier, c: &[Word]) -> String {
    format!("a living entity in each of 65,534 component sets (order {})", c[1])
}
