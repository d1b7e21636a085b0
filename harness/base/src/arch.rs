//! Type-erased access to archetypes used directly.
use crate::alloc::{lib, user};
use crate::comps::*;
use crate::groups::*;
use shard_ecs::*;

#[derive(Clone, Copy)]
pub struct ArchVt {
    pub ks: &'static [u8],
    pub mask: u32,
    pub desc: fn() -> &'static archetype_descriptor::ArchetypeDescriptor,
    pub push: fn(&mut Archetype, Entity, &[u32]) -> u32,
    pub write: fn(&mut Archetype, u32, Entity, &[u32]),
    pub swap_remove: fn(&mut Archetype, u32) -> ([u32; MAXG], bool),
    /// Moves the row's components out.
    pub take: fn(&mut Archetype, u32) -> [u32; MAXG],
    /// 0..6: fuzzy, fuzzy mut, fuzzy with entities, the same mut, exact, exact mut.
    pub view: fn(&mut Archetype, u8) -> Chunk,
    pub refs: fn(&mut Archetype, u32, bool) -> Ptrs,
}
pub const VIEWS: [&str; 6] = [
    "get_fuzzy_slices_unchecked",
    "get_fuzzy_slices_unchecked_mut",
    "get_entity_fuzzy_slices_unchecked",
    "get_entity_fuzzy_slices_unchecked_mut",
    "get_slices_unchecked_exact",
    "get_slices_unchecked_exact_mut",
];
fn a_desc<G: Grp>() -> &'static archetype_descriptor::ArchetypeDescriptor {
    <G as component_group::ComponentGroup>::DESCRIPTOR.archetype()
}
fn a_push<G: Grp>(a: &mut Archetype, e: Entity, t: &[u32]) -> u32 {
    let g = user(|| <G as Grp>::make(t));
    lib(|| unsafe { a.push_entity_unchecked::<G>(e, g) })
}
fn a_write<G: Grp>(a: &mut Archetype, i: u32, e: Entity, t: &[u32]) {
    let g = user(|| <G as Grp>::make(t));
    lib(|| unsafe { a.write_entity_unchecked::<G>(i, e, g) })
}
fn a_swap_remove<G: Grp>(a: &mut Archetype, i: u32) -> ([u32; MAXG], bool) {
    let (g, s) = lib(|| unsafe { a.swap_remove_unchecked::<G>(i) });
    let mut o = [0; MAXG];
    user(|| <G as Grp>::give(g, &mut o));
    (o, s)
}
fn a_take<G: Grp>(a: &mut Archetype, i: u32) -> [u32; MAXG] {
    let g = lib(|| unsafe { a.read_components_exact_unchecked::<G>(i) });
    let mut o = [0; MAXG];
    user(|| <G as Grp>::give(g, &mut o));
    o
}
fn a_view<G: Grp>(a: &mut Archetype, m: u8) -> Chunk {
    unsafe {
        match m {
            0 => Chunk { ents: None, cols: <G as Grp>::rs(lib(|| a.get_fuzzy_slices_unchecked::<G>())) },
            1 => Chunk { ents: None, cols: <G as Grp>::ms(lib(|| a.get_fuzzy_slices_unchecked_mut::<G>())) },
            2 => {
                let (e, s) = lib(|| a.get_entity_fuzzy_slices_unchecked::<G>());
                Chunk { ents: Some((e.as_ptr(), e.len())), cols: <G as Grp>::rs(s) }
            }
            3 => {
                let (e, s) = lib(|| a.get_entity_fuzzy_slices_unchecked_mut::<G>());
                Chunk { ents: Some((e.as_ptr(), e.len())), cols: <G as Grp>::ms(s) }
            }
            4 => Chunk { ents: None, cols: <G as Grp>::rs(lib(|| a.get_slices_unchecked_exact::<G>())) },
            _ => Chunk { ents: None, cols: <G as Grp>::ms(lib(|| a.get_slices_unchecked_exact_mut::<G>())) },
        }
    }
}
fn a_refs<G: Grp>(a: &mut Archetype, i: u32, m: bool) -> Ptrs {
    unsafe {
        if m {
            <G as Grp>::mp(lib(|| a.get_fuzzy_components_unchecked_mut::<G>(i)))
        } else {
            <G as Grp>::rp(lib(|| a.get_fuzzy_components_unchecked::<G>(i)))
        }
    }
}
pub fn avt<G: Grp>() -> ArchVt {
    ArchVt {
        ks: <G as Grp>::KS,
        mask: <G as Grp>::KS.iter().fold(0, |m, k| m | 1 << k),
        desc: a_desc::<G>,
        push: a_push::<G>,
        write: a_write::<G>,
        swap_remove: a_swap_remove::<G>,
        take: a_take::<G>,
        view: a_view::<G>,
        refs: a_refs::<G>,
    }
}

#[derive(Clone, Copy)]
pub struct ArchKindVt {
    pub get: fn(&Archetype, u32) -> *const u8,
    pub get_mut: fn(&mut Archetype, u32) -> *mut u8,
    /// Moves the component out.
    pub take: fn(&mut Archetype, u32) -> u32,
    /// Overwrites without dropping.
    pub put: fn(&mut Archetype, u32, u32),
}
fn c_get<K: Kind>(a: &Archetype, i: u32) -> *const u8 {
    lib(|| unsafe { a.get_component_unchecked::<K>(i) }) as *const K as *const u8
}
fn c_get_mut<K: Kind>(a: &mut Archetype, i: u32) -> *mut u8 {
    lib(|| unsafe { a.get_component_unchecked_mut::<K>(i) }) as *mut K as *mut u8
}
fn c_take<K: Kind>(a: &mut Archetype, i: u32) -> u32 {
    let c = lib(|| unsafe { a.read_component_unchecked::<K>(i) });
    user(|| <K as Kind>::give(c))
}
fn c_put<K: Kind>(a: &mut Archetype, i: u32, t: u32) {
    let c = user(|| <K as Kind>::make(t));
    lib(|| unsafe { a.write_single_component_unchecked::<K>(i, c) })
}
pub fn akvt<K: Kind>() -> ArchKindVt {
    ArchKindVt { get: c_get::<K>, get_mut: c_get_mut::<K>, take: c_take::<K>, put: c_put::<K> }
}

#[macro_export]
macro_rules! avts {
    ($v:ident: $($G:ty;)*) => { $( $v.push($crate::arch::avt::<$G>()); )* };
}
