//! P12: the archetype store used directly, with descriptors made at run time: every sequence of find/create/add/remove
//! over small universes of component sets (including sets whose identifiers collide or hash to the reserved value),
//! and all subsets of larger universes.
use crate::core::*;
use crate::eng_data::bad;
use crate::props::*;
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::archetype_registry::ArchetypeRegistry;
use shard_ecs::*;
use std::collections::HashMap;
use std::sync::OnceLock;

const CODE: u64 = 1012;
pub fn engines() -> Vec<Eng> {
    vec![Eng { code: CODE, explore, run, show }]
}

unsafe fn nop(_: *mut u8, _: usize) {}
pub fn comp(id: u16) -> ComponentDescriptor {
    ComponentDescriptor::new(ComponentTypeId::from_u16(id), id & 1, 1, nop)
}
pub fn desc(ids: &[u16]) -> ArchetypeDescriptor {
    let v: Vec<ComponentDescriptor> = ids.iter().map(|i| comp(*i)).collect();
    let id = ArchetypeDescriptor::compute_archetype_id(&v);
    let mut a = [const { ComponentDescriptor::INVALID }; MAX_COMPONENTS_PER_ENTITY];
    for (s, d) in a.iter_mut().zip(v) {
        *s = d;
    }
    ArchetypeDescriptor::new(id, ids.len() as u8, a)
}
/// The same set as a component group in another order would describe it.
fn desc2(ids: &[u16]) -> ArchetypeDescriptor {
    fn go<const N: usize>(ids: &[u16]) -> ArchetypeDescriptor {
        let a: [ComponentDescriptor; N] = std::array::from_fn(|i| comp(ids[(i + N / 2) % N]));
        ComponentGroupDescriptor::new(&a).archetype().clone()
    }
    macro_rules! m { ($($n:literal),*) => { match ids.len() { $($n => go::<$n>(ids),)* _ => unreachable!() } } }
    m!(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14)
}
fn same(d: &ArchetypeDescriptor, ids: &[u16]) -> bool {
    d.len() as usize == ids.len() && d.components().iter().zip(ids).all(|(c, i)| c.component_type_id().into_u16() == *i)
}
fn ids_of(d: &ArchetypeDescriptor) -> Vec<u16> {
    d.components().iter().map(|c| c.component_type_id().into_u16()).collect()
}

/// A store together with what it should contain.
struct Store {
    r: ArchetypeRegistry,
    at: HashMap<Vec<u16>, u16>,
    by: HashMap<u16, Vec<u16>>,
}
impl Store {
    fn new() -> Store {
        Store { r: ArchetypeRegistry::default(), at: HashMap::new(), by: HashMap::new() }
    }
    fn learn(&mut self, ids: &[u16], idx: u16) -> Result<(), String> {
        match self.at.get(ids) {
            Some(i) if *i == idx => Ok(()),
            Some(i) => Err(format!("set {ids:x?} has storage {idx}, earlier it had storage {i}")),
            None => match self.by.get(&idx) {
                Some(o) => Err(format!("set {ids:x?} is given storage {idx}, which is that of {o:x?}")),
                None => {
                    self.at.insert(ids.to_vec(), idx);
                    self.by.insert(idx, ids.to_vec());
                    Ok(())
                }
            },
        }
    }
    fn create(&mut self, ids: &[u16]) -> Result<u16, String> {
        self.create_by(ids, desc(ids))
    }
    fn create_by(&mut self, ids: &[u16], d: ArchetypeDescriptor) -> Result<u16, String> {
        match self.r.find_or_create_archetype(&d) {
            None => Err(format!("set {ids:x?} is refused ({} sets exist)", self.at.len())),
            Some((i, a)) => {
                if !same(a.descriptor(), ids) {
                    return Err(format!("asked for set {ids:x?}, got the storage of {:x?}", ids_of(a.descriptor())));
                }
                self.learn(ids, i)?;
                Ok(i)
            }
        }
    }
    fn addrem(&mut self, src: u16, id: u16, add: bool) -> Result<(), String> {
        let from = self.by[&src].clone();
        let mut to = from.clone();
        let possible = match to.binary_search(&id) {
            Ok(p) => {
                to.remove(p);
                !add && !to.is_empty()
            }
            Err(p) => {
                to.insert(p, id);
                add && to.len() <= 14
            }
        };
        let verb = if add { "adding" } else { "removing" };
        let r = if add { self.r.find_or_create_archetype_adding_component(src, &comp(id)) } else { self.r.find_or_create_archetype_removing_component(src, &comp(id)) };
        match r {
            None if !possible => Ok(()),
            None => Err(format!("{verb} {id:x} to/from {from:x?} is refused ({} sets exist)", self.at.len())),
            Some(_) if !possible => Err(format!("{verb} {id:x} to/from {from:x?} is accepted")),
            Some((s, i, d)) => {
                let (s, d) = (ids_of(s.descriptor()), ids_of(d.descriptor()));
                if s != from || d != to {
                    return Err(format!("{verb} {id:x} to/from {from:x?} yields storages {s:x?} and {d:x?}"));
                }
                self.learn(&to, i)
            }
        }
    }
    /// Every lookup for each of the sets.
    fn audit<'a>(&mut self, sets: impl Iterator<Item = &'a Vec<u16>>) -> Result<(), String> {
        for ids in sets {
            let d = desc(ids);
            let at = self.at.get(ids).copied();
            let p1 = self.r.find_archetype(&d).map(|a| (a as *const Archetype, same(a.descriptor(), ids)));
            let p2 = self.r.find_archetype_mut(&d).map(|a| (a as *const Archetype, same(a.descriptor(), ids)));
            match at {
                None => {
                    if p1.is_some() || p2.is_some() {
                        return Err(format!("set {ids:x?} was never created but lookup finds {:x?}", self.r.find_archetype(&d).map(|a| ids_of(a.descriptor()))));
                    }
                }
                Some(i) => {
                    let q = unsafe { [self.r.get_unchecked(i) as *const Archetype, self.r.get_unchecked_mut(i) as *const Archetype, &self.r[i] as *const Archetype, &mut self.r[i] as *const Archetype] };
                    if p1 != Some((q[0], true)) || p2 != p1 || q.iter().any(|x| *x != q[0]) {
                        return Err(format!("set {ids:x?} (storage {i}): find yields {:x?}, find_mut {:x?}, by index {:x?}", p1.map(|_| ids_of(self.r.find_archetype(&d).unwrap().descriptor())), p2.map(|x| x.1), ids_of(self.r[i].descriptor())));
                    }
                    for d in [desc2(ids), d] {
                        match self.r.find_or_create_archetype(&d) {
                            Some((j, a)) if j == i && a as *const Archetype == q[0] => {}
                            r => return Err(format!("set {ids:x?} (storage {i}): find_or_create yields {:?}", r.map(|x| (x.0, ids_of(x.1.descriptor()))))),
                        }
                        if self.r.find_archetype(&d).map(|a| a as *const Archetype) != p1.map(|x| x.0) {
                            return Err(format!("set {ids:x?} (storage {i}) is not found by a group of other order"));
                        }
                    }
                }
            }
        }
        Ok(())
    }
    fn past_the_end(&mut self, id: u16) -> Result<(), String> {
        let n = self.by.keys().map(|i| *i as u32 + 1).max().unwrap_or(0);
        for i in [n, n + 1, 65535] {
            if self.r.find_or_create_archetype_adding_component(i as u16, &comp(id)).is_some() || self.r.find_or_create_archetype_removing_component(i as u16, &comp(id)).is_some() {
                return Err(format!("storage index {i} is accepted with {n} sets"));
            }
        }
        Ok(())
    }
}

/// A family of component sets; operations: create(set), add/remove(component of `ids`) from the k-th created set.
struct Universe {
    name: String,
    sets: Vec<Vec<u16>>,
    ids: Vec<u16>,
    depth: (usize, usize),
}

fn raw(state: u32, id: u16) -> u32 {
    id.to_ne_bytes().iter().fold(state, |h, b| (h ^ *b as u32).wrapping_mul(0x0100_0193))
}
fn unraw(state: u32, id: u16) -> u32 {
    // inverse of the 32-bit FNV prime
    const INV: u32 = 0x359C_449B;
    id.to_ne_bytes().iter().rev().fold(state, |h, b| h.wrapping_mul(INV) ^ *b as u32)
}
/// Up to `n` sets of four identifiers whose FNV-1a hash over `pad` zero-padded bytes is `target`.
fn preimages(target: u32, pad: usize, n: usize) -> Vec<Vec<u16>> {
    let mut end = target;
    for _ in 0..(pad - 8) / 2 {
        end = unraw(end, 0);
    }
    let mut fwd: Vec<(u32, u16, u16)> = vec![];
    for a in 0..1500u16 {
        for b in a + 1..1500 {
            fwd.push((raw(raw(0x811C_9DC5, a), b), a, b));
        }
    }
    fwd.sort_unstable();
    let mut out = vec![];
    for d in (0x4000..0x8000u16).rev() {
        for c in 0x4000..0x4100u16 {
            if c >= d {
                break;
            }
            let h = unraw(unraw(end, d), c);
            if let Ok(i) = fwd.binary_search_by_key(&h, |x| x.0) {
                out.push(vec![fwd[i].1, fwd[i].2, c, d]);
                if out.len() == n {
                    return out;
                }
            }
        }
    }
    out
}

fn universes() -> &'static Vec<Universe> {
    static C: OnceLock<Vec<Universe>> = OnceLock::new();
    C.get_or_init(|| {
        let subsets = |ids: &[u16]| -> Vec<Vec<u16>> { (1..1u32 << ids.len()).map(|m| (0..ids.len()).filter(|i| m >> i & 1 == 1).map(|i| ids[i]).collect()).collect() };
        let mut v = vec![];
        for (n, ids) in [("three components", [3u16, 0x0102, 0xFF00]), ("three components, extreme ids", [0, 1, 0xFFFE]), ("three components, ids with equal low bytes", [5, 0x105, 0x205])] {
            v.push(Universe { name: format!("all subsets of {n}"), sets: subsets(&ids), ids: ids.to_vec(), depth: (8, 8) });
        }
        for (n, ids) in [("four components", [0u16, 0x00FF, 0x0100, 0x8001]), ("four components, neighbouring ids", [10, 11, 12, 13]), ("four components, ids with equal high bytes and powers of two", [0x0400, 0x0401, 0x0402, 0x0404])] {
            v.push(Universe { name: format!("all subsets of {n}"), sets: subsets(&ids), ids: ids.to_vec(), depth: (3, 5) });
        }
        // sets of two with the same identifier
        let mut h: Vec<(u32, u16, u16)> = vec![];
        for a in 0..4096u16 {
            for b in a + 1..4096 {
                h.push((ArchetypeDescriptor::compute_archetype_id(&[comp(a), comp(b)]).into_u32(), a, b));
            }
        }
        h.sort_unstable();
        let mut most: Vec<(usize, usize)> = vec![]; // (size of the class, start)
        let mut i = 0;
        while i < h.len() {
            let mut j = i;
            while j < h.len() && h[j].0 == h[i].0 {
                j += 1;
            }
            if j - i > 1 {
                most.push((j - i, i));
            }
            i = j;
        }
        most.sort_unstable_by_key(|x| (std::cmp::Reverse(x.0), x.1));
        for (k, s) in most.iter().take(6).chain(most.iter().rev().take(3)) {
            let mut sets: Vec<Vec<u16>> = h[*s..s + k].iter().map(|x| vec![x.1, x.2]).collect();
            for near in [s.wrapping_sub(1), s + k] {
                if let Some(x) = h.get(near) {
                    sets.push(vec![x.1, x.2]);
                }
            }
            let mut ids: Vec<u16> = h[*s..s + k].iter().flat_map(|x| [x.1, x.2]).collect();
            ids.sort();
            ids.dedup();
            for i in &ids {
                sets.push(vec![*i]);
            }
            v.push(Universe { name: format!("{k} sets of two with identifier {:08x} and their neighbours", h[*s].0), sets, ids, depth: (3, 4) });
        }
        // a set of two whose identifier is that of a single component
        if let Some(x) = h.iter().find(|x| x.0 < 0x10000) {
            let mut ids = vec![x.1, x.2, x.0 as u16];
            ids.sort();
            ids.dedup();
            v.push(Universe { name: "a pair with the identifier of a single component".into(), sets: subsets(&ids), ids, depth: (4, 6) });
        }
        drop(h);
        // sets hashing to the reserved value and next to it
        for pad in [28usize, 8] {
            let mut sets = preimages(u32::MAX, pad, 3);
            sets.extend(preimages(u32::MAX - 1, pad, 2));
            sets.extend(preimages(0, pad, 1));
            if sets.is_empty() {
                continue;
            }
            let ids: Vec<u16> = vec![sets[0][0], sets[0][3]];
            let mut t = sets[0].clone();
            t.remove(0);
            sets.push(t);
            let mut t = sets[0].clone();
            t.pop();
            sets.push(t);
            v.push(Universe { name: format!("sets of four hashing to ffffffff, fffffffe and 0 ({pad} bytes)"), sets, ids, depth: (4, 5) });
        }
        // four sets of four with one identifier, one lower and one higher
        for target in [0x1234_5678u32, 0x8000_0000, 0x0000_00FF] {
            let mut sets = preimages(target, 28, 4);
            sets.extend(preimages(target - 1, 28, 1));
            sets.extend(preimages(target + 1, 28, 1));
            let mut three = sets[1].clone();
            let ids = vec![three[2], three[3]];
            three.pop();
            sets.push(three);
            v.push(Universe { name: format!("four sets of four with identifier {target:08x} and their neighbours"), sets, ids, depth: (4, 5) });
        }
        v
    })
}

/// An operation within a universe: 0..S create, then (k, id, add/rem) on the k-th created set.
fn ops(u: &Universe, n: usize) -> usize {
    u.sets.len() * 2 + n * u.ids.len() * 2
}
fn step(u: &Universe, st: &mut Store, order: &mut Vec<u16>, o: usize) -> Result<(), String> {
    let before = st.at.len();
    if o < u.sets.len() * 2 {
        let s = &u.sets[o / 2];
        let i = st.create_by(s, if o % 2 == 0 { desc(s) } else { desc2(s) })?;
        if st.at.len() > before {
            order.push(i);
        }
        return Ok(());
    }
    let x = o - u.sets.len() * 2;
    let (k, y) = (x / (u.ids.len() * 2), x % (u.ids.len() * 2));
    st.addrem(order[k], u.ids[y / 2], y % 2 == 0)?;
    if st.at.len() > before {
        let new = *st.by.keys().find(|i| !order.contains(i)).unwrap();
        order.push(new);
    }
    Ok(())
}
/// Replays the operations and audits all sets of the universe at the end; the key of the state and the number of sets.
fn play(u: &Universe, path: &[u64]) -> Result<(u128, usize), String> {
    let mut st = Store::new();
    let mut order = vec![];
    for o in path {
        step(u, &mut st, &mut order, *o as usize)?;
    }
    let extra: Vec<Vec<u16>> = st.at.keys().cloned().collect();
    st.audit(u.sets.iter().chain(&extra))?;
    if path.len() <= 2 {
        st.past_the_end(u.ids[0])?;
    }
    // the state: the sets in the order of creation
    let mut k = Key::new();
    for i in &order {
        let s = &st.by[i];
        k.add(s.len() as u64);
        for x in s {
            k.add(*x as u64);
        }
    }
    Ok((k.get(), order.len()))
}

fn mask_ids(ids: &[u16], m: u32) -> Vec<u16> {
    (0..ids.len()).filter(|i| m >> i & 1 == 1).map(|i| ids[i]).collect()
}
const SEVEN: [u16; 7] = [1, 2, 0x00F0, 0x0100, 0x0200, 0x7FFF, 0xFFFE];
const EIGHT: [[u16; 2]; 8] = [[1, 2], [1, 3], [2, 3], [3, 0x100], [0, 0xFFFE], [5, 6], [0x200, 0x201], [0x7FFF, 0x8000]];
fn fourteen() -> Vec<u16> {
    (0..14u16).map(|i| i * 0x1111 + (i & 3)).collect()
}

fn explore(cx: &Cx) {
    let us = universes();
    for (ui, u) in us.iter().enumerate() {
        let depth = if cx.thorough() { u.depth.1 } else { u.depth.0 };
        let seen = Seen::new();
        let mut level: Vec<(Vec<u64>, usize)> = vec![(vec![], 0)];
        let (mut trans, mut d) = (0u64, 0);
        while d < depth && !level.is_empty() && !cx.stopped() {
            let next = std::sync::Mutex::new(vec![]);
            cx.par(level.len(), |i| {
                let (path, n) = &level[i];
                let mut out = vec![];
                for o in 0..ops(u, *n) {
                    let mut w = vec![CODE, 0, ui as u64];
                    w.extend(path);
                    w.push(o as u64);
                    let mut r = None;
                    cx.case(&w, || match play(u, &w[3..]) {
                        Ok(x) => {
                            r = Some(x);
                            vec![]
                        }
                        Err(e) => bad(12, e),
                    });
                    if let Some((k, n)) = r {
                        if seen.insert(k) {
                            out.push((w[3..].to_vec(), n));
                        }
                    }
                }
                cx.transitions(ops(u, *n) as u64);
                next.lock().unwrap().extend(out);
            });
            trans += level.iter().map(|(_, n)| ops(u, *n) as u64).sum::<u64>();
            level = next.into_inner().unwrap();
            level.sort();
            d += 1;
        }
        // and without regard to states met before: what an operation remembers elsewhere than in the sets counts too
        let (mut free, mut n) = (0usize, 1u64);
        loop {
            n *= ops(u, free) as u64; // an upper bound: at most one new set per operation
            if n > if cx.thorough() { 4_000_000 } else { 600_000 } {
                break;
            }
            free += 1;
        }
        let firsts: Vec<u64> = (0..ops(u, 0) as u64).collect();
        let seqs = std::sync::atomic::AtomicU64::new(0);
        cx.par(firsts.len(), |i| {
            let mut stack = vec![vec![firsts[i]]];
            let mut n = 0;
            while let Some(path) = stack.pop() {
                if cx.stopped() {
                    return;
                }
                let mut w = vec![CODE, 0, ui as u64];
                w.extend(&path);
                let mut sets = None;
                cx.case(&w, || match play(u, &path) {
                    Ok(x) => {
                        sets = Some(x.1);
                        vec![]
                    }
                    Err(e) => bad(12, e),
                });
                n += 1;
                if let (Some(k), true) = (sets, path.len() < free) {
                    for o in 0..ops(u, k) as u64 {
                        let mut p = path.clone();
                        p.push(o);
                        stack.push(p);
                    }
                }
            }
            cx.transitions(n);
            seqs.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
        });
        cx.states(seen.len() as u64);
        cx.note(format!("universe {ui}: {} sequences of up to {free} operations without merging of states", seqs.load(std::sync::atomic::Ordering::Relaxed)));
        let clash = u.sets.iter().filter(|a| u.sets.iter().any(|b| a != &b && a.len() == b.len() && desc(a).archetype_id() == desc(b).archetype_id())).count();
        cx.count("component sets sharing their identifier with another", clash as u64);
        cx.note(format!("universe {ui}, {} ({clash} sets with colliding identifiers): {} {d}, {} states (orders of creation), {trans} transitions", u.name, if level.is_empty() { "complete at depth" } else { "all states to depth" }, seen.len()));
    }
    let mut v: Vec<Vec<u64>> = vec![];
    for f in 0..130u64 {
        v.push(vec![CODE, 1, f]); // subsets of seven in one order
    }
    for f in 0..8u64 * 7 {
        v.push(vec![CODE, 2, f]); // all orders of eight sets of two, by the first two
    }
    for f in 0..(if cx.thorough() { 10 } else { 5 }) {
        v.push(vec![CODE, 3, f]); // all subsets of fourteen
    }
    cx.par(v.len(), |i| {
        cx.case(&v[i], || run(cx.tier, &v[i]));
        if i % 41 == 3 {
            cx.sample(&v[i]);
        }
    });
    cx.states(130 * 127 + 40320 * 8);
    cx.transitions(130 * 127 + 40320 * 8 + 3 * 16383 * 28);
    cx.count("sets in one store", 16383);
    cx.count("universes of component sets", us.len() as u64);
    cx.count("orders of creation of eight sets", 40320);
}

fn order_of(f: u64, n: usize) -> Vec<u32> {
    // orders of 1..=n: ascending, descending, by Gray code, by size up and down, and all strides
    let n32 = n as u32;
    match f {
        0 => (1..=n32).collect(),
        1 => (1..=n32).rev().collect(),
        2 => (1..=n32).map(|i| i ^ i >> 1).collect(),
        3 => {
            let mut v: Vec<u32> = (1..=n32).collect();
            v.sort_by_key(|m| (m.count_ones(), *m));
            v
        }
        4 => {
            let mut v: Vec<u32> = (1..=n32).collect();
            v.sort_by_key(|m| (std::cmp::Reverse(m.count_ones()), *m));
            v
        }
        // multiplication by an odd number modulo the power of two
        f => (0..=n32).map(|i| i.wrapping_mul(2 * f as u32 - 7) & n32).filter(|m| *m != 0).collect(),
    }
}

fn run(_: Tier, w: &[Word]) -> Vec<Fail> {
    let r: Result<(), String> = match w[1] {
        0 => play(&universes()[w[2] as usize], &w[3..]).map(|_| ()),
        1 => (|| {
            let mut st = Store::new();
            let all: Vec<Vec<u16>> = (1..128).map(|m| mask_ids(&SEVEN, m)).collect();
            for m in order_of(w[2], 127) {
                st.create(&all[m as usize - 1])?;
                if w[2] < 8 {
                    st.audit(all.iter())?;
                }
            }
            st.audit(all.iter())?;
            st.past_the_end(7)
        })(),
        2 => (|| {
            let (a, b) = (w[2] as usize / 7, w[2] as usize % 7);
            let b = b + (b >= a) as usize;
            let rest: Vec<usize> = (0..8).filter(|i| *i != a && *i != b).collect();
            let all: Vec<Vec<u16>> = EIGHT.iter().map(|s| s.to_vec()).collect();
            for p in crate::eng_data::perms(6) {
                let mut st = Store::new();
                for i in [a, b].into_iter().chain(p.iter().map(|i| rest[*i])) {
                    st.create(&all[i])?;
                }
                st.audit(all.iter())?;
            }
            Ok(())
        })(),
        _ => (|| {
            let mut st = Store::new();
            let ids = fourteen();
            let all: Vec<Vec<u16>> = (1..1u32 << 14).map(|m| mask_ids(&ids, m)).collect();
            if w[2] == 4 {
                // reached by adding: every set from the set without its highest component
                for id in &ids {
                    st.create(&[*id])?;
                }
                for m in 1..1u32 << 14 {
                    if m.count_ones() > 1 {
                        let hi = 31 - m.leading_zeros();
                        let src = st.at[&mask_ids(&ids, m & !(1 << hi))];
                        st.addrem(src, ids[hi as usize], true)?;
                    }
                }
            } else if w[2] == 3 {
                // reached by removing, from the full set down
                st.create(&ids)?;
                for m in (1..(1u32 << 14) - 1).rev() {
                    let lo = (!m).trailing_zeros();
                    let src = st.at[&mask_ids(&ids, m | 1 << lo)];
                    st.addrem(src, ids[lo as usize], false)?;
                }
            } else {
                for m in order_of(w[2], (1 << 14) - 1) {
                    st.create(&all[m as usize - 1])?;
                }
            }
            st.audit(all.iter())?;
            if st.at.len() != 16383 {
                return Err(format!("{} sets instead of 16383", st.at.len()));
            }
            if w[2] < 3 {
                for m in 1..1u32 << 14 {
                    let src = st.at[&all[m as usize - 1]];
                    for (i, id) in ids.iter().enumerate() {
                        st.addrem(src, *id, true)?;
                        st.addrem(src, *id, false)?;
                        let _ = i;
                    }
                }
                st.audit(all.iter())?;
            }
            st.past_the_end(7)
        })(),
    };
    match r {
        Ok(()) => vec![],
        Err(e) => bad(12, e),
    }
}
fn show(_: Tier, w: &[Word]) -> String {
    match w[1] {
        0 => {
            let u = &universes()[w[2] as usize];
            let s: Vec<String> = w[3..]
                .iter()
                .map(|o| {
                    let o = *o as usize;
                    if o < u.sets.len() * 2 {
                        return format!("create {:x?}{}", u.sets[o / 2], if o % 2 == 1 { " as a group in another order" } else { "" });
                    }
                    let x = o - u.sets.len() * 2;
                    let (k, y) = (x / (u.ids.len() * 2), x % (u.ids.len() * 2));
                    format!("{} {:x} {} the set created as number {k}", if y % 2 == 0 { "add" } else { "remove" }, u.ids[y / 2], if y % 2 == 0 { "to" } else { "from" })
                })
                .collect();
            format!("archetype store, {}: {}", u.name, s.join("; "))
        }
        1 => format!("archetype store: all 127 subsets of 7 components created in order {}", w[2]),
        2 => format!("archetype store: eight sets of two created in every order beginning with pair {}", w[2]),
        _ => format!("archetype store: all 16383 subsets of 14 components, order {}", w[2]),
    }
}
