//! Columns whose bytes exceed what 31 or 32 bits can address.
//!
//! Archetypes used directly (P22, P18): rows that are never touched cost address space only, so an archetype with
//! capacity for more than 4 GiB of one column is filled with unwritten rows up to the boundary, and every sequence of
//! operations over the rows around the boundaries (and around the rows they would be confused with, were offsets
//! computed modulo 2^31 or 2^32) is executed.
//!
//! A registry (P03) is really filled with 65,540 entities of 65,535 bytes each.
use crate::core::*;
use crate::eng_arch::{tab, Row};
use crate::props::*;
use mcbase::alloc::{self, lib};
use mcbase::arch::*;
use mcbase::comps::*;
use shard_ecs::*;
use std::collections::BTreeMap;

pub const CODE: u64 = 1040;
pub const CODE_REG: u64 = 1041;
pub fn engines() -> Vec<Eng> {
    vec![Eng { code: CODE, explore, run, show }]
}
pub fn engines_reg() -> Vec<Eng> {
    vec![Eng { code: CODE_REG, explore: explore_reg, run: run_reg, show: |_, _| "65,540 entities of one component of 65,535 bytes".into() }]
}

struct Scn {
    ks: &'static [u8],
    /// The column that becomes large.
    k: u8,
    /// The row at which its bytes reach the boundary.
    at: u32,
    cap: u32,
    full: usize,
    pushes: bool,
}
fn scenarios(th: bool) -> Vec<Scn> {
    const L: u8 = 8;
    const G: u8 = 9;
    const N: u8 = 11;
    const X: u8 = 15;
    const Y: u8 = 16;
    let mut v = vec![];
    for bits in [31u32, 32] {
        let row = |k: u8| ((1u64 << bits) / kinds()[k as usize].size as u64) as u32;
        let mut add = |ks, k, full| v.push(Scn { ks, k, at: row(k), cap: row(k) + 8, full, pushes: false });
        add(&[X], X, 2);
        add(&[X, N], X, 1 + th as usize);
        add(&[Y, 4], Y, 1 + th as usize);
        add(&[G], G, 1 + th as usize);
        add(&[L], L, 1);
    }
    // growth into, and of, such a column
    for (cap, at) in [(32_800, 32_768), (65_540, 65_537)] {
        v.push(Scn { ks: &[X], k: X, at, cap, full: 1, pushes: true });
    }
    v
}

struct Big {
    a: Archetype,
    vt: ArchVt,
    rows: BTreeMap<u32, Row>,
    len: u32,
    next: u32,
    fails: Vec<Fail>,
}
const PUSH: u64 = 0;
const SWAP: u64 = 1;
const REMOVE: u64 = 2;
const DROP: u64 = 3;
const REPLACE: u64 = 4;
const ASSIGN: u64 = 5;
const LAST: u64 = 6;
const WRITE: u64 = 7;
const MOVE: u64 = 8;
const NAMES: [&str; 9] = ["push_entity_unchecked", "swap_entities", "swap_remove_unchecked", "swap_drop_unchecked", "read and write_single_component_unchecked", "assign through get_component_unchecked_mut", "swap_to_last_unchecked", "write_entity_unchecked", "copy to another archetype"];

impl Big {
    fn fail(&mut self, n: u32, m: String) {
        if self.fails.len() < 3 {
            self.fails.push(Fail { props: p(n), msg: m });
        }
    }
    fn fresh(&mut self) -> (Vec<u32>, Row) {
        self.next += 1;
        let e = unsafe { Entity::new_unchecked(self.next * 7919 & 0xFF_FFFF, self.next as u8) };
        let mut r = Row { e, t: [0; 17] };
        let ks = self.vt.ks;
        let t: Vec<u32> = ks.iter().map(|k| self.next & kinds()[*k as usize].mask).collect();
        for (k, x) in ks.iter().zip(&t) {
            r.t[*k as usize] = *x;
        }
        (t, r)
    }
    fn push(&mut self) {
        let (t, r) = self.fresh();
        let j = (self.vt.push)(&mut self.a, r.e, &t);
        if j != self.len || self.a.len() != self.len + 1 {
            let m = format!("push_entity_unchecked on {} rows returns {j}, then len() is {}", self.len, self.a.len());
            self.fail(22, m);
        }
        self.rows.insert(self.len, r);
        self.len += 1;
    }
    fn put(&mut self, i: u32) {
        let (t, r) = self.fresh();
        (self.vt.write)(&mut self.a, i, r.e, &t);
        self.rows.insert(i, r);
    }
    fn swapped(&mut self, i: u32, j: u32) {
        if i != j {
            let (a, b) = (self.rows.remove(&i), self.rows.remove(&j));
            a.map(|r| self.rows.insert(j, r));
            b.map(|r| self.rows.insert(i, r));
        }
    }
    fn gave(&mut self, what: &str, got: &[u32], want: &Row) {
        for (j, k) in self.vt.ks.iter().enumerate() {
            if got[j] != want.t[*k as usize] {
                self.fail(22, format!("{what}: component {} is {}, expected {}", kinds()[*k as usize].name, got[j] as i32, want.t[*k as usize]));
            }
        }
    }
    fn apply(&mut self, o: u64) {
        let (kind, i, j) = (o >> 56, (o >> 28 & 0xFFF_FFFF) as u32, (o & 0xFFF_FFFF) as u32);
        let last = self.len - 1;
        let k = self.vt.ks[0];
        match kind {
            PUSH => self.push(),
            SWAP => {
                lib(|| unsafe { self.a.swap_entities(i, j) });
                self.swapped(i, j);
            }
            REMOVE => {
                let (t, m) = (self.vt.swap_remove)(&mut self.a, i);
                self.swapped(i, last);
                let r = self.rows.remove(&last).unwrap();
                self.len -= 1;
                self.gave("swap_remove_unchecked", &t, &r);
                if m != (i != last) {
                    self.fail(22, format!("swap_remove_unchecked({i}) of {} rows reports {m}", last + 1));
                }
            }
            DROP => {
                take_drops();
                let m = lib(|| unsafe { self.a.swap_drop_unchecked(i) });
                self.swapped(i, last);
                let r = self.rows.remove(&last).unwrap();
                self.len -= 1;
                let want: Vec<(u8, u32)> = self.vt.ks.iter().filter(|k| kinds()[**k as usize].drop).map(|k| (*k, r.t[*k as usize])).collect();
                let mut got = take_drops();
                got.sort();
                let mut w = want.clone();
                w.sort();
                if m != (i != last) || got != w {
                    self.fail(22, format!("swap_drop_unchecked({i}) of {} rows reports {m} and drops {got:?}, expected {w:?}", last + 1));
                }
            }
            REPLACE => {
                let (t, r) = self.fresh();
                let _ = t;
                let old = (tab().k[k as usize].take)(&mut self.a, i);
                let new = r.t[k as usize];
                (tab().k[k as usize].put)(&mut self.a, i, new);
                let want = std::mem::replace(&mut self.rows.get_mut(&i).unwrap().t[k as usize], new);
                if old != want {
                    self.fail(22, format!("read_component_unchecked({i}) is {}, expected {want}", old as i32));
                }
            }
            ASSIGN => {
                let (_, r) = self.fresh();
                let new = r.t[k as usize];
                let ptr = (tab().k[k as usize].get_mut)(&mut self.a, i);
                self.rows.get_mut(&i).unwrap().t[k as usize] = new;
                unsafe { (crate::tables::tables().k[k as usize].assign)(ptr, new) };
                take_drops();
            }
            LAST => {
                lib(|| unsafe { self.a.swap_to_last_unchecked(i) });
                self.swapped(i, last);
            }
            WRITE => {
                let t = (self.vt.take)(&mut self.a, i);
                let r = self.rows.remove(&i).unwrap();
                self.gave("read_components_exact_unchecked", &t, &r);
                self.put(i);
            }
            _ => {
                // copies the row elsewhere and back, as moving entities between component sets does
                let d = (self.vt.desc)();
                let mut other = lib(|| Archetype::with_capacity(d, 2));
                let x = lib(|| unsafe { other.push_uninitialized_entity() });
                lib(|| unsafe { Archetype::copy_common_components_between_archetypes_unchecked(&self.a, i, &mut other, x) });
                let t = (self.vt.take)(&mut other, x);
                let r = self.rows.remove(&i).unwrap();
                self.gave("copy_common_components_between_archetypes_unchecked", &t, &r);
                let (t, new) = self.fresh();
                (self.vt.write)(&mut other, x, r.e, &t);
                lib(|| unsafe { Archetype::copy_common_components_between_archetypes_unchecked(&other, x, &mut self.a, i) });
                lib(|| unsafe { other.decrement_len_unchecked() });
                self.rows.insert(i, Row { e: r.e, t: new.t });
                lib(|| drop(other));
            }
        }
    }
    fn at(&mut self, what: &str, i: u32, k: u8, ptr: *const u8) {
        let ki = &kinds()[k as usize];
        if ptr.is_null() || ptr as usize % ki.align != 0 {
            self.fail(18, format!("{what}: reference to {} at row {i} is {ptr:p}", ki.name));
            return;
        }
        let t = unsafe { (crate::tables::tables().k[k as usize].tok)(ptr) };
        let want = self.rows[&i].t[k as usize];
        if t != want {
            self.fail(22, format!("{what}: {} of row {i} is {}, expected {want}", ki.name, t as i32));
        }
    }
    fn audit(&mut self) {
        let (len, cap) = (self.a.len(), self.a.capacity());
        if len != self.len || cap < len {
            let m = format!("len() is {len}, capacity() {cap} with {} rows", self.len);
            self.fail(22, m);
            return;
        }
        let rows: Vec<(u32, Entity)> = self.rows.iter().map(|(i, r)| (*i, r.e)).collect();
        for (i, e) in &rows {
            if self.a.entities()[*i as usize] != *e {
                self.fail(22, format!("entities()[{i}] is another entity"));
            }
        }
        for m in 0..6 {
            let c = (self.vt.view)(&mut self.a, m);
            for (j, k) in self.vt.ks.iter().enumerate() {
                let (ptr, l) = c.cols[j];
                if l != self.len as usize {
                    self.fail(22, format!("{}: {l} elements", VIEWS[m as usize]));
                    return;
                }
                for (i, _) in &rows {
                    self.at(VIEWS[m as usize], *i, *k, ptr.wrapping_add(*i as usize * kinds()[*k as usize].size));
                }
            }
        }
        for (i, _) in &rows {
            for m in [false, true] {
                let r = (self.vt.refs)(&mut self.a, *i, m);
                for (j, k) in self.vt.ks.iter().enumerate() {
                    self.at("get_fuzzy_components_unchecked", *i, *k, r[j]);
                }
            }
            for k in self.vt.ks {
                let q = (tab().k[*k as usize].get)(&self.a, *i);
                self.at("get_component_unchecked", *i, *k, q);
            }
        }
    }
}

/// Rows looked at: the first ones and those around the boundary.
fn special(sc: &Scn) -> Vec<u32> {
    let mut v = vec![0, 1, 2, sc.at - 2, sc.at - 1, sc.at, sc.at + 1, sc.at + 2];
    if sc.pushes {
        v.retain(|i| *i < sc.cap);
    }
    v
}
fn ops(sc: &Scn, depth: usize) -> Vec<u64> {
    let mut v = vec![PUSH << 56];
    let sp = special(sc);
    let last = *sp.last().unwrap();
    for i in &sp {
        // the last row may be gone
        if depth > 0 && *i == last {
            continue;
        }
        for k in REMOVE..=MOVE {
            v.push(k << 56 | (*i as u64) << 28);
        }
        for j in &sp {
            if i < j && !(depth > 0 && *j == last) {
                v.push(SWAP << 56 | (*i as u64) << 28 | *j as u64);
            }
        }
    }
    if sc.pushes {
        v.truncate(1);
    }
    v
}

/// Is so much address space to be had?
fn room(bytes: usize) -> bool {
    unsafe {
        let q = crate::sys::mmap(std::ptr::null_mut(), bytes, 3, 0x22, -1, 0);
        if q as isize == -1 {
            return false;
        }
        crate::sys::munmap(q, bytes);
    }
    true
}

fn play(sc: &Scn, path: &[u64]) -> Vec<Fail> {
    set_logging(true);
    clear_panics();
    take_drops();
    alloc::take_err();
    let live0 = alloc::live_blocks();
    let g = tab().g.iter().find(|g| g.ks == sc.ks).unwrap();
    let d = (g.desc)();
    let mut b = Big { a: lib(|| Archetype::with_capacity(d, sc.cap)), vt: *g, rows: Default::default(), len: 0, next: 0, fails: vec![] };
    let sp = special(sc);
    let n = if sc.pushes { sc.cap } else { sp.last().unwrap() + 1 };
    for i in 0..n {
        if sp.contains(&i) && i > 2 {
            b.push();
        } else {
            lib(|| unsafe { b.a.push_uninitialized_entity() });
            b.len += 1;
        }
    }
    for i in 0..3 {
        b.put(i);
    }
    for o in path {
        if b.fails.is_empty() {
            b.apply(*o);
        }
    }
    if b.fails.is_empty() {
        b.audit();
    }
    if b.fails.is_empty() {
        let rows: Vec<u32> = b.rows.keys().copied().collect();
        for i in rows {
            let t = (b.vt.take)(&mut b.a, i);
            let r = b.rows.remove(&i).unwrap();
            b.gave("read_components_exact_unchecked", &t, &r);
        }
        take_drops();
        for _ in 0..b.len {
            lib(|| unsafe { b.a.decrement_len_unchecked() });
        }
        let Big { a, fails, .. } = b;
        let mut fails = fails;
        lib(|| drop(a));
        let extra = take_drops();
        if !extra.is_empty() {
            fails.push(Fail { props: p(22), msg: format!("dropping an archetype without rows drops {:?}", &extra[..extra.len().min(4)]) });
        }
        let e = alloc::take_err();
        if e != 0 {
            fails.push(Fail { props: p(18), msg: alloc::err_text(e) });
        }
        let d = alloc::live_blocks() - live0;
        if d != 0 {
            fails.push(Fail { props: p(18), msg: format!("{d} blocks are still allocated") });
        }
        return fails;
    }
    std::mem::forget(b.a);
    b.fails
}

fn explore(cx: &Cx) {
    for (si, sc) in scenarios(cx.thorough()).iter().enumerate() {
        if cx.prop == 18 && sc.full > 1 && !cx.thorough() {
            continue;
        }
        let bytes = kinds()[sc.k as usize].size * sc.cap as usize * if sc.pushes { 2 } else { 1 };
        if !room(bytes) {
            cx.note(format!("columns over 4 GiB: {bytes} bytes cannot be mapped here, not run"));
            continue;
        }
        let mut w = vec![vec![]];
        let mut all: Vec<Vec<u64>> = vec![vec![]];
        let full = if cx.prop == 18 { 1 } else { sc.full };
        for d in 0..full {
            let mut next = vec![];
            for x in &w {
                for o in ops(sc, d) {
                    let mut y: Vec<u64> = Vec::clone(x);
                    y.push(o);
                    next.push(y);
                }
            }
            all.extend(next.clone());
            w = next;
        }
        // growth really touches the memory
        let run = |i: usize| {
            let mut words = vec![CODE, si as u64];
            words.extend(&all[i]);
            cx.case(&words, || play(sc, &all[i]));
            if i == 7 {
                cx.sample(&words);
            }
        };
        if sc.pushes {
            (0..all.len()).for_each(run);
        } else {
            cx.par(all.len(), run);
        }
        cx.transitions(all.len() as u64 - 1);
        cx.note(format!("an archetype of {:?} around row {} (byte 2^{} of a column): every sequence of {full} operations, {} in all", sc.ks.iter().map(|k| kinds()[*k as usize].name).collect::<Vec<_>>(), sc.at, if sc.at as u64 * kinds()[sc.k as usize].size as u64 > 3 << 30 { 32 } else { 31 }, all.len()));
    }
}
fn run(tier: Tier, w: &[Word]) -> Vec<Fail> {
    play(&scenarios(tier == Tier::Thorough)[w[1] as usize], &w[2..])
}
fn show(tier: Tier, w: &[Word]) -> String {
    let sc = &scenarios(tier == Tier::Thorough)[w[1] as usize];
    let v: Vec<String> = w[2..].iter().map(|o| format!("{}({}, {})", NAMES[(o >> 56) as usize], o >> 28 & 0xFFF_FFFF, o & 0xFFF_FFFF)).collect();
    let ks: Vec<&str> = sc.ks.iter().map(|k| kinds()[*k as usize].name).collect();
    format!("an archetype of {ks:?} with capacity {} and rows written at {:?}: {}", sc.cap, special(sc), v.join("; "))
}

const ROWS: u32 = 65_540;
fn explore_reg(cx: &Cx) {
    // 8.6 GB; once is enough
    if crate::PROFILE != "release" || !room(14 << 30) {
        return;
    }
    cx.case(&[CODE_REG], || fill_reg());
    cx.transitions(ROWS as u64);
    cx.note(format!("a registry of {ROWS} entities with one component of 65,535 bytes each (4.3 GB in one column, grown past 4 GiB): every value, after creation, removal at both ends, addition and removal of a component"));
}
fn run_reg(_: Tier, _: &[Word]) -> Vec<Fail> {
    fill_reg()
}
fn fill_reg() -> Vec<Fail> {
    struct Restore;
    impl Drop for Restore {
        fn drop(&mut self) {
            set_logging(true);
        }
    }
    set_logging(false);
    let _restore = Restore;
    let mut fails = vec![];
    let mut r = Registry::default();
    let mut want: BTreeMap<u32, (Entity, u32)> = BTreeMap::new();
    for i in 0..ROWS {
        let v = X::make(i + 1);
        match lib(|| r.create_entity(v)) {
            Ok(e) => {
                want.insert(i, (e, i + 1));
            }
            Err(_) => return vec![Fail { props: p(13), msg: format!("create_entity refuses entity {i}") }],
        }
    }
    let check = |r: &mut Registry, want: &BTreeMap<u32, (Entity, u32)>, when: &str, fails: &mut Vec<Fail>| {
        for (_, (e, t)) in want {
            let got = lib(|| r.get_component::<X>(*e)).map(|x| x.tok());
            if got != Some(*t) && fails.len() < 3 {
                fails.push(Fail { props: p(3), msg: format!("{when}: get_component of entity {} of {} is {got:?}, expected {t}", e.index(), want.len()) });
            }
        }
    };
    check(&mut r, &want, "after creation", &mut fails);
    // through iteration, too
    let by: std::collections::HashMap<u32, u32> = want.values().map(|(e, t)| (e.raw(), *t)).collect();
    let mut n = 0;
    for (es, xs) in r.iter_entity_components_matching::<X>() {
        for (e, x) in es.iter().zip(xs) {
            n += 1;
            if by.get(&e.raw()) != Some(&x.tok()) && fails.len() < 3 {
                fails.push(Fail { props: p(3), msg: format!("iteration yields {} for entity {}, expected {:?}", x.tok(), e.index(), by.get(&e.raw())) });
            }
        }
    }
    if n != want.len() && fails.is_empty() {
        fails.push(Fail { props: p(7), msg: format!("iteration yields {n} rows of {}", want.len()) });
    }
    if !fails.is_empty() {
        std::mem::forget(r);
        return fails;
    }
    // the last rows move to the front, rows of the front move out, the end is taken off, and so on
    for i in [0u32, 1, 32_768, 65_534] {
        let (e, t) = want.remove(&i).unwrap();
        if i % 2 == 0 {
            let got = lib(|| r.remove_entity::<X>(e)).map(|x| x.give());
            if got != Some(t) {
                fails.push(Fail { props: p(3), msg: format!("remove_entity of entity {i} gives {got:?}, expected {t}") });
            }
        } else {
            lib(|| r.destroy_entity(e));
        }
    }
    for i in [2u32, 32_769, 65_530] {
        let (e, _) = want[&i];
        if lib(|| r.add_component(e, B::make(9))).is_err() {
            fails.push(Fail { props: p(4), msg: "add_component fails".into() });
        }
    }
    for i in [3u32, 32_770, 65_531] {
        let w = want.get_mut(&i).unwrap();
        w.1 += 1_000_000;
        let (e, t) = *w;
        if let Some(x) = lib(|| r.get_component_mut::<X>(e)) {
            *x = X::make(t);
        }
    }
    for i in [2u32, 65_530] {
        let _ = lib(|| r.remove_component::<B>(want[&i].0));
    }
    check(&mut r, &want, "after removals, additions and writes", &mut fails);
    if fails.is_empty() {
        lib(|| drop(r));
    } else {
        std::mem::forget(r);
    }
    alloc::take_err();
    fails
}
