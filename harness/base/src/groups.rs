//! Type-erased access to the registry for every group type used: the real generic API is instantiated once
//! per group/kind, and reached through function pointers.
use crate::alloc::{lib, user};
use crate::comps::*;
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::component_group::ComponentGroup;
use shard_ecs::*;

pub const MAXG: usize = 14;
pub type Ptrs = [*mut u8; MAXG];
pub const NULLS: Ptrs = [core::ptr::null_mut(); MAXG];
pub type Pred<'a> = &'a dyn Fn(&ArchetypeDescriptor) -> bool;

#[derive(Clone)]
pub struct Chunk {
    pub ents: Option<(*const Entity, usize)>,
    pub cols: [(*mut u8, usize); MAXG],
}

/// Tuples (and single components) whose parts are all `Kind`s.
pub trait Grp: ComponentGroup {
    const KS: &'static [u8];
    fn make(t: &[u32]) -> Self;
    fn give(self, out: &mut [u32]);
    fn rp(r: <Self as ComponentGroup>::RefTuple<'_>) -> Ptrs;
    fn mp(r: <Self as ComponentGroup>::MutRefTuple<'_>) -> Ptrs;
    fn rs(r: <Self as ComponentGroup>::SliceRefTuple<'_>) -> [(*mut u8, usize); MAXG];
    fn ms(r: <Self as ComponentGroup>::SliceMutRefTuple<'_>) -> [(*mut u8, usize); MAXG];
}

impl<K1: Kind> Grp for K1 {
    const KS: &'static [u8] = &[K1::K];
    fn make(t: &[u32]) -> Self {
        <K1 as Kind>::make(t[0])
    }
    fn give(self, out: &mut [u32]) {
        out[0] = <K1 as Kind>::give(self);
    }
    fn rp(r: <Self as ComponentGroup>::RefTuple<'_>) -> Ptrs {
        let mut p = NULLS;
        p[0] = r as *const K1 as *mut u8;
        p
    }
    fn mp(r: <Self as ComponentGroup>::MutRefTuple<'_>) -> Ptrs {
        let mut p = NULLS;
        p[0] = r as *mut K1 as *mut u8;
        p
    }
    fn rs(r: <Self as ComponentGroup>::SliceRefTuple<'_>) -> [(*mut u8, usize); MAXG] {
        let mut p = [(core::ptr::null_mut(), 0); MAXG];
        p[0] = (r.as_ptr() as *mut u8, r.len());
        p
    }
    fn ms(r: <Self as ComponentGroup>::SliceMutRefTuple<'_>) -> [(*mut u8, usize); MAXG] {
        let mut p = [(core::ptr::null_mut(), 0); MAXG];
        p[0] = (r.as_mut_ptr() as *mut u8, r.len());
        p
    }
}

macro_rules! grp_tuple {
    ($(($T:ident, $i:tt)),*) => {
        impl<$($T: Kind),*> Grp for ($($T),*) {
            const KS: &'static [u8] = &[$($T::K),*];
            fn make(t: &[u32]) -> Self { ($(<$T as Kind>::make(t[$i])),*) }
            fn give(self, out: &mut [u32]) { $(out[$i] = <$T as Kind>::give(self.$i);)* }
            fn rp(r: <Self as ComponentGroup>::RefTuple<'_>) -> Ptrs {
                let mut p = NULLS; $(p[$i] = r.$i as *const $T as *mut u8;)* p
            }
            fn mp(r: <Self as ComponentGroup>::MutRefTuple<'_>) -> Ptrs {
                let mut p = NULLS; $(p[$i] = r.$i as *mut $T as *mut u8;)* p
            }
            fn rs(r: <Self as ComponentGroup>::SliceRefTuple<'_>) -> [(*mut u8, usize); MAXG] {
                let mut p = [(core::ptr::null_mut(), 0); MAXG];
                $(p[$i] = (r.$i.as_ptr() as *mut u8, r.$i.len());)* p
            }
            fn ms(r: <Self as ComponentGroup>::SliceMutRefTuple<'_>) -> [(*mut u8, usize); MAXG] {
                let mut p = [(core::ptr::null_mut(), 0); MAXG];
                $(p[$i] = (r.$i.as_mut_ptr() as *mut u8, r.$i.len());)* p
            }
        }
    };
}
grp_tuple!((T0, 0), (T1, 1));
grp_tuple!((T0, 0), (T1, 1), (T2, 2));
grp_tuple!((T0, 0), (T1, 1), (T2, 2), (T3, 3));
grp_tuple!((T0, 0), (T1, 1), (T2, 2), (T3, 3), (T4, 4));
grp_tuple!((T0, 0), (T1, 1), (T2, 2), (T3, 3), (T4, 4), (T5, 5));
grp_tuple!((T0, 0), (T1, 1), (T2, 2), (T3, 3), (T4, 4), (T5, 5), (T6, 6));
grp_tuple!((T0, 0), (T1, 1), (T2, 2), (T3, 3), (T4, 4), (T5, 5), (T6, 6), (T7, 7));
grp_tuple!((T0, 0), (T1, 1), (T2, 2), (T3, 3), (T4, 4), (T5, 5), (T6, 6), (T7, 7), (T8, 8));
grp_tuple!((T0, 0), (T1, 1), (T2, 2), (T3, 3), (T4, 4), (T5, 5), (T6, 6), (T7, 7), (T8, 8), (T9, 9));
grp_tuple!((T0, 0), (T1, 1), (T2, 2), (T3, 3), (T4, 4), (T5, 5), (T6, 6), (T7, 7), (T8, 8), (T9, 9), (T10, 10));
grp_tuple!((T0, 0), (T1, 1), (T2, 2), (T3, 3), (T4, 4), (T5, 5), (T6, 6), (T7, 7), (T8, 8), (T9, 9), (T10, 10), (T11, 11));
grp_tuple!((T0, 0), (T1, 1), (T2, 2), (T3, 3), (T4, 4), (T5, 5), (T6, 6), (T7, 7), (T8, 8), (T9, 9), (T10, 10), (T11, 11), (T12, 12));
grp_tuple!((T0, 0), (T1, 1), (T2, 2), (T3, 3), (T4, 4), (T5, 5), (T6, 6), (T7, 7), (T8, 8), (T9, 9), (T10, 10), (T11, 11), (T12, 12), (T13, 13));

pub const M_MATCH: u8 = 0;
pub const M_MATCH_MUT: u8 = 1;
pub const M_EMATCH: u8 = 2;
pub const M_EMATCH_MUT: u8 = 3;
pub const M_FILT: u8 = 4; // 4..8 the filtered versions of 0..4
pub const M_EXACT: u8 = 8; // 8..12 the exact versions of 0..4
pub const MODE_NAMES: [&str; 12] = [
    "iter_components_matching",
    "iter_components_matching_mut",
    "iter_entity_components_matching",
    "iter_entity_components_matching_mut",
    "iter_filtered_components_matching",
    "iter_filtered_components_matching_mut",
    "iter_filtered_entity_components_matching",
    "iter_filtered_entity_components_matching_mut",
    "iter_components_exact",
    "iter_components_exact_mut",
    "iter_entity_components_exact",
    "iter_entity_components_exact_mut",
];

#[derive(Clone, Copy)]
pub struct GroupVt {
    pub ks: &'static [u8],
    /// Set of kinds named.
    pub mask: u32,
    /// No kind is named twice.
    pub wf: bool,
    pub create: fn(&mut Registry, &[u32]) -> Result<Entity, [u32; MAXG]>,
    pub remove: fn(&mut Registry, Entity) -> Option<[u32; MAXG]>,
    pub has: fn(&Registry, Entity) -> bool,
    pub get: fn(&Registry, Entity) -> Option<Ptrs>,
    pub get_mut: fn(&mut Registry, Entity) -> Option<Ptrs>,
    pub iter: fn(&mut Registry, u8, Pred, &mut Vec<Chunk>),
    pub iter_ro: fn(&Registry, u8, Pred, &mut Vec<Chunk>),
    pub desc: fn() -> &'static component_group_descriptor::ComponentGroupDescriptor,
}

fn g_create<G: Grp>(r: &mut Registry, t: &[u32]) -> Result<Entity, [u32; MAXG]> {
    let g = user(|| <G as Grp>::make(t));
    match lib(|| r.create_entity::<G>(g)) {
        Ok(e) => Ok(e),
        Err(g) => {
            let mut o = [0; MAXG];
            user(|| <G as Grp>::give(g, &mut o));
            Err(o)
        }
    }
}
fn g_remove<G: Grp>(r: &mut Registry, e: Entity) -> Option<[u32; MAXG]> {
    let g = lib(|| r.remove_entity::<G>(e))?;
    let mut o = [0; MAXG];
    user(|| <G as Grp>::give(g, &mut o));
    Some(o)
}
fn g_has<G: Grp>(r: &Registry, e: Entity) -> bool {
    lib(|| r.has_components::<G>(e))
}
fn g_get<G: Grp>(r: &Registry, e: Entity) -> Option<Ptrs> {
    lib(|| r.get_components::<G>(e)).map(|t| <G as Grp>::rp(t))
}
fn g_get_mut<G: Grp>(r: &mut Registry, e: Entity) -> Option<Ptrs> {
    lib(|| r.get_components_mut::<G>(e)).map(|t| <G as Grp>::mp(t))
}
fn drive(step: &mut dyn FnMut() -> bool) {
    let mut n = 0;
    while step() {
        n += 1;
        if n > 200_000 {
            panic!("iteration does not end");
        }
    }
    // fused: a finished iteration stays finished
    if step() {
        panic!("iteration yielded an item after its end");
    }
}
fn put(o: &mut Vec<Chunk>, e: Option<(*const Entity, usize)>, cols: [(*mut u8, usize); MAXG]) {
    o.push(Chunk { ents: e, cols })
}
macro_rules! run_plain {
    ($out:ident, $it:expr, $f:ident) => {{
        let mut it = lib(|| $it);
        drive(&mut || match lib(|| it.next()) {
            Some(s) => { put($out, None, <G as Grp>::$f(s)); true }
            None => false,
        })
    }};
}
macro_rules! run_ent {
    ($out:ident, $it:expr, $f:ident) => {{
        let mut it = lib(|| $it);
        drive(&mut || match lib(|| it.next()) {
            Some((e, s)) => { put($out, Some((e.as_ptr(), e.len())), <G as Grp>::$f(s)); true }
            None => false,
        })
    }};
}
fn g_iter<G: Grp>(r: &mut Registry, mode: u8, pred: Pred, out: &mut Vec<Chunk>) {
    match mode {
        1 => run_plain!(out, r.iter_components_matching_mut::<G>(), ms),
        3 => run_ent!(out, r.iter_entity_components_matching_mut::<G>(), ms),
        5 => run_plain!(out, r.iter_filtered_components_matching_mut::<G, Pred>(pred), ms),
        7 => run_ent!(out, r.iter_filtered_entity_components_matching_mut::<G, Pred>(pred), ms),
        9 => {
            let s = lib(|| r.iter_components_exact_mut::<G>());
            put(out, None, <G as Grp>::ms(s))
        }
        11 => {
            let (e, s) = lib(|| r.iter_entity_components_exact_mut::<G>());
            put(out, Some((e.as_ptr(), e.len())), <G as Grp>::ms(s))
        }
        _ => g_iter_ro::<G>(r, mode, pred, out),
    }
}
fn g_iter_ro<G: Grp>(r: &Registry, mode: u8, pred: Pred, out: &mut Vec<Chunk>) {
    match mode {
        0 => run_plain!(out, r.iter_components_matching::<G>(), rs),
        2 => run_ent!(out, r.iter_entity_components_matching::<G>(), rs),
        4 => run_plain!(out, r.iter_filtered_components_matching::<G, Pred>(pred), rs),
        6 => run_ent!(out, r.iter_filtered_entity_components_matching::<G, Pred>(pred), rs),
        8 => {
            let s = lib(|| r.iter_components_exact::<G>());
            put(out, None, <G as Grp>::rs(s))
        }
        10 => {
            let (e, s) = lib(|| r.iter_entity_components_exact::<G>());
            put(out, Some((e.as_ptr(), e.len())), <G as Grp>::rs(s))
        }
        _ => unreachable!(),
    }
}
fn g_desc<G: Grp>() -> &'static component_group_descriptor::ComponentGroupDescriptor {
    &<G as ComponentGroup>::DESCRIPTOR
}

pub fn vt<G: Grp>() -> GroupVt {
    let mut mask = 0;
    let mut wf = true;
    for k in <G as Grp>::KS {
        if mask >> k & 1 == 1 {
            wf = false;
        }
        mask |= 1 << k;
    }
    GroupVt {
        ks: <G as Grp>::KS,
        mask,
        wf,
        create: g_create::<G>,
        remove: g_remove::<G>,
        has: g_has::<G>,
        get: g_get::<G>,
        get_mut: g_get_mut::<G>,
        iter: g_iter::<G>,
        iter_ro: g_iter_ro::<G>,
        desc: g_desc::<G>,
    }
}

#[derive(Clone, Copy)]
pub struct KindVt {
    pub has: fn(&Registry, Entity) -> bool,
    pub get: fn(&Registry, Entity) -> Option<*const u8>,
    pub get_mut: fn(&mut Registry, Entity) -> Option<*mut u8>,
    pub add: fn(&mut Registry, Entity, u32) -> Result<(), u32>,
    pub rem: fn(&mut Registry, Entity) -> Result<u32, ()>,
    /// Token of the value at the address.
    pub tok: unsafe fn(*const u8) -> u32,
    /// Assigns a new value through a reference to the address (drops the old one).
    pub assign: unsafe fn(*mut u8, u32),
    pub desc_has: fn(&ArchetypeDescriptor) -> bool,
    pub desc: fn() -> component_descriptor::ComponentDescriptor,
}
fn k_has<K: Kind>(r: &Registry, e: Entity) -> bool {
    lib(|| r.has_component::<K>(e))
}
fn k_get<K: Kind>(r: &Registry, e: Entity) -> Option<*const u8> {
    lib(|| r.get_component::<K>(e)).map(|x| x as *const K as *const u8)
}
fn k_get_mut<K: Kind>(r: &mut Registry, e: Entity) -> Option<*mut u8> {
    lib(|| r.get_component_mut::<K>(e)).map(|x| x as *mut K as *mut u8)
}
fn k_add<K: Kind>(r: &mut Registry, e: Entity, t: u32) -> Result<(), u32> {
    let c = user(|| <K as Kind>::make(t));
    lib(|| r.add_component::<K>(e, c)).map_err(|c| user(|| <K as Kind>::give(c)))
}
fn k_rem<K: Kind>(r: &mut Registry, e: Entity) -> Result<u32, ()> {
    lib(|| r.remove_component::<K>(e)).map(|c| user(|| <K as Kind>::give(c)))
}
unsafe fn k_tok<K: Kind>(p: *const u8) -> u32 {
    (*(p as *const K)).tok()
}
unsafe fn k_assign<K: Kind>(p: *mut u8, t: u32) {
    *(p as *mut K) = <K as Kind>::make(t);
}
fn k_dhas<K: Kind>(d: &ArchetypeDescriptor) -> bool {
    d.has_component::<K>()
}
fn k_desc<K: Kind>() -> component_descriptor::ComponentDescriptor {
    K::DESCRIPTOR
}
pub fn kvt<K: Kind>() -> KindVt {
    KindVt {
        has: k_has::<K>,
        get: k_get::<K>,
        get_mut: k_get_mut::<K>,
        add: k_add::<K>,
        rem: k_rem::<K>,
        tok: k_tok::<K>,
        assign: k_assign::<K>,
        desc_has: k_dhas::<K>,
        desc: k_desc::<K>,
    }
}


#[macro_export]
macro_rules! vts {
    ($v:ident: $($G:ty;)*) => { $( $v.push($crate::groups::vt::<$G>()); )* };
}

/// Ways to consume an iterator other than calling `next` until it ends.
pub const STYLES: [&str; 12] = ["for_each", "collect", "nth(0)", "nth(1)", "nth(2) and then next", "last", "count", "take(1) and then for_each", "next and then fold", "step_by(2)", "skip(1)", "next, asking size_hint before each (out of bounds: one item more)"];
/// Calling `next` until it ends.
pub const NEXT: usize = 99;
/// What style `s` yields of an iteration whose items are `0..n`.
pub fn style_items(s: usize, n: usize) -> Vec<usize> {
    match s {
        3 => (1..n).step_by(2).collect(),
        4 => (2..n).collect(),
        5 => n.checked_sub(1).into_iter().collect(),
        9 => (0..n).step_by(2).collect(),
        10 => (1..n).collect(),
        _ => (0..n).collect(),
    }
}
fn consume<I: Iterator>(mut it: I, s: usize, out: &mut Vec<Chunk>, f: impl Fn(I::Item) -> Chunk) {
    let mut put = |x: I::Item| {
        if out.len() > 200_000 {
            panic!("iteration does not end");
        }
        out.push(f(x));
    };
    match s {
        0 => it.for_each(put),
        1 => it.collect::<Vec<_>>().into_iter().for_each(put),
        2 | 3 => {
            while let Some(x) = it.nth(s - 2) {
                put(x);
            }
        }
        4 => {
            if let Some(x) = it.nth(2) {
                put(x);
                while let Some(x) = it.next() {
                    put(x);
                }
            }
        }
        5 => it.last().into_iter().for_each(put),
        6 => {
            let n = it.count();
            out.resize(n, Chunk { ents: None, cols: [(core::ptr::null_mut(), 0); MAXG] });
        }
        7 => {
            it.by_ref().take(1).for_each(&mut put);
            it.for_each(put);
        }
        8 => {
            if let Some(x) = it.next() {
                put(x);
                it.fold((), |_, x| put(x));
            }
        }
        9 => it.step_by(2).for_each(put),
        NEXT => {
            while let Some(x) = it.next() {
                put(x);
            }
        }
        11 => {
            let mut hints = vec![it.size_hint()];
            while let Some(x) = it.next() {
                put(x);
                hints.push(it.size_hint());
            }
            let n = hints.len() - 1;
            if hints.iter().enumerate().any(|(i, h)| h.0 > n - i || h.1.map_or(false, |u| u < n - i)) {
                out.push(Chunk { ents: None, cols: [(core::ptr::null_mut(), 0); MAXG] });
            }
        }
        _ => it.skip(1).for_each(put),
    }
}
pub type StyleFn = fn(&mut Registry, u8, Pred, usize, &mut Vec<Chunk>);
pub fn styled<G: Grp>(r: &mut Registry, mode: u8, p: Pred, s: usize, o: &mut Vec<Chunk>) {
    let plain_r = |x| Chunk { ents: None, cols: <G as Grp>::rs(x) };
    let plain_m = |x| Chunk { ents: None, cols: <G as Grp>::ms(x) };
    fn ent_r<G: Grp>(x: (&[Entity], <G as ComponentGroup>::SliceRefTuple<'_>)) -> Chunk {
        Chunk { ents: Some((x.0.as_ptr(), x.0.len())), cols: <G as Grp>::rs(x.1) }
    }
    fn ent_m<G: Grp>(x: (&[Entity], <G as ComponentGroup>::SliceMutRefTuple<'_>)) -> Chunk {
        Chunk { ents: Some((x.0.as_ptr(), x.0.len())), cols: <G as Grp>::ms(x.1) }
    }
    match mode {
        0 => consume(r.iter_components_matching::<G>(), s, o, plain_r),
        1 => consume(r.iter_components_matching_mut::<G>(), s, o, plain_m),
        2 => consume(r.iter_entity_components_matching::<G>(), s, o, ent_r::<G>),
        3 => consume(r.iter_entity_components_matching_mut::<G>(), s, o, ent_m::<G>),
        4 => consume(r.iter_filtered_components_matching::<G, Pred>(p), s, o, plain_r),
        5 => consume(r.iter_filtered_components_matching_mut::<G, Pred>(p), s, o, plain_m),
        6 => consume(r.iter_filtered_entity_components_matching::<G, Pred>(p), s, o, ent_r::<G>),
        7 => consume(r.iter_filtered_entity_components_matching_mut::<G, Pred>(p), s, o, ent_m::<G>),
        _ => unreachable!(),
    }
}
/// The entities of a registry, consumed in style `s`.
pub fn styled_ents(r: &Registry, s: usize) -> Vec<Option<Entity>> {
    let mut o = vec![];
    let mut v = vec![];
    {
        let v = core::cell::RefCell::new(&mut v);
        consume(r.iter_entities(), s, &mut o, |e| {
            v.borrow_mut().push(Some(e));
            Chunk { ents: None, cols: [(core::ptr::null_mut(), 0); MAXG] }
        });
    }
    v.resize(o.len(), None);
    v
}
