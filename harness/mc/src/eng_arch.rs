//! P22 (and P18): archetypes used directly. Two archetypes and a model of each as a list of rows; every sequence of
//! operations to a depth, then every operation in every reached (capacity, length) state.
use crate::core::*;
use crate::props::*;
use mcbase::alloc::{self, lib};
use mcbase::arch::*;
use mcbase::comps::*;
use shard_ecs::*;
use std::sync::OnceLock;

pub const CODE: u64 = 1022;
pub fn engines() -> Vec<Eng> {
    vec![Eng { code: CODE, explore, run, show }]
}

pub struct Tab {
    pub g: Vec<ArchVt>,
    pub k: Vec<ArchKindVt>,
}
pub fn tab() -> &'static Tab {
    static C: OnceLock<Tab> = OnceLock::new();
    C.get_or_init(|| Tab { g: mcg4::groups(), k: mcg4::kinds() })
}
fn gix(ks: &[u8]) -> usize {
    tab().g.iter().position(|g| g.ks == ks).unwrap_or_else(|| panic!("no group {ks:?}"))
}

struct Scn {
    name: String,
    /// Groups (index of one ordering) and capacities of the two archetypes, rows pushed at the start.
    g: [usize; 2],
    cap: [u32; 2],
    fill: [u32; 2],
    /// All sequences to this depth, then by distinct (capacity, length) states to the second one.
    full: usize,
    deep: usize,
    maxrows: u32,
}

fn scenarios(prop: u32, th: bool) -> Vec<Scn> {
    let mut v = vec![];
    let k = |ks: &[u8]| gix(ks);
    let (a, z, w, h, b, t, p, q, l, g, n) = (0u8, 1u8, 2u8, 3u8, 4u8, 5u8, 6u8, 7u8, 8u8, 9u8, 11u8);
    let (x, y) = (15u8, 16u8);
    let wide14: Vec<u8> = (0..14).collect();
    let wide13: Vec<u8> = (0..13).collect();
    let mut add = |name: &str, g0: &[u8], g1: &[u8], cap: [u32; 2], fill: [u32; 2], full, deep, maxrows| {
        v.push(Scn { name: format!("{name}, capacities {} and {}, rows {} and {}", cap[0], cap[1], fill[0], fill[1]), g: [k(g0), k(g1)], cap, fill, full, deep, maxrows })
    };
    let d = th as usize;
    let main = [a, z, w, h];
    if prop == 22 {
        for c in [0u32, 1, 2, 3, 4, 5, 7] {
            let o = [3, 1, 0, 2, 5, 1, 0][c as usize % 7];
            add("(A,Z,W,H) and (A,W)", &main, &[a, w], [c, o], [0, 0], 2 + (d | (c == 1) as usize), 8 + 4 * d, 9);
        }
        for c in [0u32, 1, 2, 3] {
            add("B and (T,B)", &[b], &[t, b], [c, 3 - c], [0, 0], 3 + d, 8 + 4 * d, 9);
            add("Z and (A,Z,W)", &[z], &[a, z, w], [c, c], [0, 0], 3 + d, 8 + 4 * d, 9);
            add("N and (T,P,N)", &[n], &[t, p, n], [c, 2], [0, 0], 3 + d, 8 + 4 * d, 9);
            add("(T,P,N) and (P,T)", &[t, p, n], &[p, t], [c, 1], [1, 0], 2 + d, 6 + 4 * d, 7);
        }
        for (c, f) in [(127u32, 126u32), (127, 127), (128, 127), (128, 128), (0, 127), (0, 128), (0, 255), (0, 256), (1, 64), (3, 96), (300, 5)] {
            add("(A,Z,W,H) and (A,W)", &main, &[a, w], [c, c], [f, 2], 1, 3 + 2 * d, f + 6);
            add("B and (T,B)", &[b], &[t, b], [c, c], [f, f], 1, 3 + 2 * d, f + 6);
        }
        add("14 and 13 components", &wide14, &wide13, [1, 0], [0, 0], 1 + d, 5 + 2 * d, 5);
        add("14 and 13 components", &wide14, &wide13, [0, 128], [127, 127], 1, 1 + d, 131);
    }
    // layouts: sizes and alignments at their limits, and capacities beyond the maximum
    let f = if prop == 18 { 2 } else { 1 };
    for c in [0u32, 1, 2, 3] {
        add("X and (X,N)", &[x], &[x, n], [c, 1], [0, 0], f, 4 + d, 5);
        add("Y and (Y,B)", &[y], &[y, b], [c, 1], [0, 0], f, 4 + d, 5);
        add("(X,Y) and X", &[x, y], &[x], [c, 2], [0, 0], f, 4 + d, 5);
        add("L and (L,Q)", &[l], &[l, q], [c, c], [0, 0], f, 5 + d, 5);
        add("G and (G,B)", &[g], &[g, b], [c, c], [0, 0], f, 5 + d, 5);
        if prop == 18 {
            add("(A,Z,W,H) and (A,W)", &main, &[a, w], [c, c], [0, 0], 2, 6 + d, 6);
            add("N and (T,P,N)", &[n], &[t, p, n], [c, c], [0, 0], 3, 6 + d, 6);
            add("Z and B", &[z], &[b], [c, c], [0, 0], 3, 6 + d, 6);
            add("14 and 13 components", &wide14, &wide13, [c, c], [0, 0], 1, 4 + d, 4);
        }
    }
    if prop == 18 || th {
        add("X and (X,N)", &[x], &[x, n], [128, 127], [127, 127], 1, 1 + d, 131);
        add("(Y,B) and Y", &[y, b], &[y], [128, 127], [127, 127], 1, 1 + d, 131);
    }
    add("N and Z", &[n], &[z], [0, 0], [127, 128], 1, 4, 133);
    for c in [16_777_214u32, 16_777_215, 16_777_216, u32::MAX] {
        add("B and T", &[b], &[t], [c, 1], [0, 0], 1, 2, 3);
        add("Z and (A,Z)", &[z], &[z, w], [c, 0], [1, 1], 1, 2, 3);
    }
    v
}

pub struct Row {
    pub e: Entity,
    pub t: [u32; 17],
}
struct Two {
    a: [Option<Archetype>; 2],
    g: [usize; 2],
    cap: [u32; 2],
    rows: [Vec<Row>; 2],
    fails: Vec<Fail>,
    /// Values expected to have been dropped since the last look.
    drops: Vec<(u8, u32)>,
    next: u32,
    nextent: u32,
}
impl Two {
    fn fail(&mut self, n: u32, m: String) {
        if self.fails.len() < 4 {
            self.fails.push(Fail { props: p(n), msg: m });
        }
    }
    fn ks(&self, s: usize) -> &'static [u8] {
        tab().g[self.g[s]].ks
    }
    /// All orderings of the set of archetype `s`.
    fn orders(&self, s: usize) -> Vec<usize> {
        let m = tab().g[self.g[s]].mask;
        (0..tab().g.len()).filter(|i| tab().g[*i].mask == m).collect()
    }
    fn tok(&mut self, k: u8) -> u32 {
        self.next = self.next.wrapping_add(1);
        self.next & kinds()[k as usize].mask
    }
    fn ent(&mut self) -> Entity {
        self.nextent += 1;
        unsafe { Entity::new_unchecked(self.nextent * 7919 & 0xFF_FFFF, (self.nextent & 0xFF) as u8) }
    }
    fn fresh(&mut self, s: usize, g: usize) -> (Vec<u32>, Row) {
        let ks = tab().g[g].ks;
        let t: Vec<u32> = ks.iter().map(|k| self.tok(*k)).collect();
        let mut r = Row { e: self.ent(), t: [0; 17] };
        for (k, x) in ks.iter().zip(&t) {
            r.t[*k as usize] = *x;
        }
        let _ = s;
        (t, r)
    }
    fn pushed(&mut self, s: usize, what: &str, i: u32) {
        if i as usize != self.rows[s].len() {
            let n = self.rows[s].len();
            self.fail(22, format!("{what} on an archetype of {n} rows returns index {i}"));
        }
    }
    fn gave(&mut self, what: &str, ks: &[u8], got: &[u32], want: &Row) {
        for (j, k) in ks.iter().enumerate() {
            if got[j] != want.t[*k as usize] {
                self.fail(22, format!("{what}: component {} is {}, expected {}", kinds()[*k as usize].name, got[j] as i32, want.t[*k as usize]));
            }
        }
    }
    fn dropped(&mut self, r: &Row, ks: &[u8]) {
        for k in ks {
            if kinds()[*k as usize].drop {
                self.drops.push((*k, r.t[*k as usize]));
            }
        }
    }

    /// `kind` of operation, archetype, row, parameter.
    fn apply(&mut self, o: u64) {
        let (kind, s, i, x) = (o >> 56, (o >> 48 & 1) as usize, (o >> 20 & 0xFFF_FFFF) as u32, (o & 0xF_FFFF) as usize);
        let n = self.rows[s].len();
        let iu = i as usize;
        let vt = tab().g[if kind == REPLACE || kind == ASSIGN || kind == SWAP || kind == MOVE { self.g[s] } else { x.min(tab().g.len() - 1) }];
        let mut arch = self.a[s].take().unwrap();
        match kind {
            PUSH => {
                let (t, r) = self.fresh(s, x);
                let j = (vt.push)(&mut arch, r.e, &t);
                self.pushed(s, "push_entity_unchecked", j);
                self.rows[s].push(r);
            }
            PUSH_PARTS => {
                let (_, r) = self.fresh(s, self.g[s]);
                let j = lib(|| unsafe { arch.push_uninitialized_entity() });
                self.pushed(s, "push_uninitialized_entity", j);
                if j as usize == n && arch.len() as usize == n + 1 {
                    for k in self.ks(s) {
                        (tab().k[*k as usize].put)(&mut arch, j, r.t[*k as usize]);
                    }
                    arch.entities_mut()[n] = r.e;
                }
                self.rows[s].push(r);
            }
            PUSH_WRITE => {
                let (t, r) = self.fresh(s, x);
                let j = lib(|| unsafe { arch.push_uninitialized_entity() });
                self.pushed(s, "push_uninitialized_entity", j);
                if j as usize == n && arch.len() as usize == n + 1 {
                    (vt.write)(&mut arch, j, r.e, &t);
                }
                self.rows[s].push(r);
            }
            DROP => {
                let m = lib(|| unsafe { arch.swap_drop_unchecked(i) });
                let r = self.rows[s].swap_remove(iu);
                self.dropped(&r, self.ks(s));
                if m != (iu + 1 != n) {
                    self.fail(22, format!("swap_drop_unchecked({i}) of {n} rows reports {m}"));
                }
            }
            REMOVE => {
                let (t, m) = (vt.swap_remove)(&mut arch, i);
                let r = self.rows[s].swap_remove(iu);
                self.gave("swap_remove_unchecked", vt.ks, &t, &r);
                if m != (iu + 1 != n) {
                    self.fail(22, format!("swap_remove_unchecked({i}) of {n} rows reports {m}"));
                }
            }
            LAST => {
                let m = lib(|| unsafe { arch.swap_to_last_unchecked(i) });
                self.rows[s].swap(iu, n - 1);
                if m != (iu + 1 != n) {
                    self.fail(22, format!("swap_to_last_unchecked({i}) of {n} rows reports {m}"));
                }
            }
            SWAP => {
                lib(|| unsafe { arch.swap_entities(i, x as u32) });
                self.rows[s].swap(iu, x);
            }
            REPLACE => {
                let k = x as u8;
                let t = self.tok(k);
                let old = (tab().k[x].take)(&mut arch, i);
                let want = std::mem::replace(&mut self.rows[s][iu].t[x], t);
                (tab().k[x].put)(&mut arch, i, t);
                if old != want {
                    self.fail(22, format!("read_component_unchecked::<{}>({i}) is {}, expected {want}", kinds()[x].name, old as i32));
                }
            }
            ASSIGN => {
                let k = x as u8;
                let t = self.tok(k);
                let ptr = (tab().k[x].get_mut)(&mut arch, i);
                let want = std::mem::replace(&mut self.rows[s][iu].t[x], t);
                if kinds()[x].drop {
                    self.drops.push((k, want));
                }
                if (ptr as usize) < 4096 && kinds()[x].size > 0 {
                    self.fail(18, format!("get_component_unchecked_mut::<{}>({i}) is at {ptr:p}", kinds()[x].name));
                } else {
                    unsafe { (crate::tables::tables().k[x].assign)(ptr, t) };
                }
            }
            TAKE => {
                lib(|| unsafe { arch.swap_to_last_unchecked(i) });
                let t = (vt.take)(&mut arch, n as u32 - 1);
                lib(|| unsafe { arch.decrement_len_unchecked() });
                let r = self.rows[s].swap_remove(iu);
                self.gave("read_components_exact_unchecked", vt.ks, &t, &r);
            }
            MOVE => {
                // as moving an entity between component sets does it
                let d = 1 - s;
                let mut to = self.a[d].take().unwrap();
                let (mine, theirs) = (self.ks(s), self.ks(d));
                let j = lib(|| unsafe { to.push_uninitialized_entity() });
                self.pushed(d, "push_uninitialized_entity", j);
                let mut r = Row { e: self.rows[s][iu].e, t: [0; 17] };
                lib(|| unsafe { Archetype::copy_common_components_between_archetypes_unchecked(&arch, i, &mut to, j) });
                for k in theirs {
                    if mine.contains(k) {
                        r.t[*k as usize] = self.rows[s][iu].t[*k as usize];
                    } else {
                        r.t[*k as usize] = self.tok(*k);
                        (tab().k[*k as usize].put)(&mut to, j, r.t[*k as usize]);
                    }
                }
                if (j as usize) < to.len() as usize {
                    to.entities_mut()[j as usize] = r.e;
                }
                let old = std::mem::replace(&mut self.rows[s][iu], Row { e: r.e, t: [0; 17] });
                for k in mine {
                    if !theirs.contains(k) {
                        let t = (tab().k[*k as usize].take)(&mut arch, i);
                        if t != old.t[*k as usize] {
                            self.fail(22, format!("read_component_unchecked::<{}>({i}) is {}, expected {}", kinds()[*k as usize].name, t as i32, old.t[*k as usize]));
                        }
                    }
                }
                lib(|| unsafe { arch.swap_to_last_unchecked(i) });
                lib(|| unsafe { arch.decrement_len_unchecked() });
                self.rows[s].swap_remove(iu);
                self.rows[d].push(r);
                self.a[d] = Some(to);
            }
            HANDLE => {
                let e = self.ent();
                match arch.entities_mut().get_mut(iu) {
                    Some(x) => *x = e,
                    None => {
                        let l = arch.entities_mut().len();
                        self.fail(22, format!("entities_mut() has {l} elements with {n} rows"));
                    }
                }
                self.rows[s][iu].e = e;
            }
            WRITE => {
                // overwrite a row whose values were moved out
                let t = (vt.take)(&mut arch, i);
                let (new, r) = self.fresh(s, x);
                let old = std::mem::replace(&mut self.rows[s][iu], r);
                self.gave("read_components_exact_unchecked", vt.ks, &t, &old);
                let e = self.rows[s][iu].e;
                (vt.write)(&mut arch, i, e, &new);
            }
            _ => {
                // drop all rows
                lib(|| unsafe { arch.drop_entities() });
                for _ in 0..n {
                    lib(|| unsafe { arch.decrement_len_unchecked() });
                }
                let ks = self.ks(s);
                for r in std::mem::take(&mut self.rows[s]) {
                    self.dropped(&r, ks);
                }
            }
        }
        self.a[s] = Some(arch);
    }
    fn cap_ok(&mut self, s: usize) {
        let a = self.a[s].as_ref().unwrap();
        let (len, cap, full) = (a.len(), a.capacity(), a.is_full());
        let n = self.rows[s].len() as u32;
        if len != n || cap < len || full != (len == cap) {
            self.fail(22, format!("len() is {len}, capacity() {cap}, is_full() {full} with {n} rows"));
        }
        self.cap[s] = cap;
    }
    fn ledger(&mut self) {
        let mut got = take_drops();
        got.sort();
        self.drops.sort();
        if got != self.drops {
            let m = format!("destructors that ran: {:?}, expected {:?}", &got[..got.len().min(8)], &self.drops[..self.drops.len().min(8)]);
            self.fail(22, m);
        }
        self.drops.clear();
        let e = alloc::take_err();
        if e != 0 {
            self.fail(18, alloc::err_text(e));
        }
    }
    fn at(&mut self, what: &str, s: usize, i: usize, k: u8, ptr: *const u8) {
        let ki = &kinds()[k as usize];
        if ptr.is_null() || ptr as usize % ki.align != 0 {
            self.fail(18, format!("{what}: reference to {} at row {i} is {ptr:p}", ki.name));
            return;
        }
        let t = unsafe { (crate::tables::tables().k[k as usize].tok)(ptr) };
        let want = self.rows[s][i].t[k as usize];
        if t != want {
            self.fail(22, format!("{what}: {} of row {i} is {}, expected {want}", ki.name, t as i32));
        }
    }
    fn audit(&mut self, s: usize) {
        self.cap_ok(s);
        if !self.fails.is_empty() {
            return;
        }
        let mut arch = self.a[s].take().unwrap();
        let n = self.rows[s].len();
        let mask = tab().g[self.g[s]].mask;
        let want: Vec<Entity> = self.rows[s].iter().map(|r| r.e).collect();
        if arch.entities() != &want[..] || arch.entities_mut() != &want[..] {
            let m = format!("entities() is {:?}, expected {:?}", arch.entities(), want);
            self.fail(22, m.chars().take(300).collect());
        }
        let d = arch.descriptor();
        let mut ids: Vec<u16> = self.ks(s).iter().map(|k| kinds()[*k as usize].id).collect();
        ids.sort();
        if d.components().iter().map(|c| c.component_type_id().into_u16()).ne(ids.iter().copied()) {
            self.fail(22, "descriptor() describes another set".into());
        }
        // rows looked at one by one: all, or those at the ends and around the middle
        let ri: Vec<usize> = if n <= 16 { (0..n).collect() } else { let mut v = vec![0, 1, 2, n / 2, n - 3, n - 2, n - 1, 126.min(n - 1), 127.min(n - 1), 128.min(n - 1)]; v.sort(); v.dedup(); v };
        for (gi, g) in tab().g.iter().enumerate() {
            if g.mask & mask != g.mask || !self.fails.is_empty() {
                continue;
            }
            for m in 0..if g.mask == mask { 6 } else { 4 } {
                // the wide and deep views only of the group itself, its other orders and single kinds when there are many rows
                if n > 16 && g.mask != mask && g.ks.len() > 1 {
                    continue;
                }
                let c = (g.view)(&mut arch, m);
                if let Some((p, l)) = c.ents {
                    if l != n || unsafe { std::slice::from_raw_parts(p, l) } != &want[..] {
                        self.fail(22, format!("{}: {l} entities, or others than those of the rows", VIEWS[m as usize]));
                    }
                }
                for (j, k) in g.ks.iter().enumerate() {
                    let (ptr, l) = c.cols[j];
                    if l != n {
                        self.fail(22, format!("{}: slice of {} has {l} elements with {n} rows", VIEWS[m as usize], kinds()[*k as usize].name));
                        break;
                    }
                    let sz = kinds()[*k as usize].size;
                    if n == 0 && (ptr.is_null() || ptr as usize % kinds()[*k as usize].align != 0) {
                        self.fail(18, format!("{}: empty slice of {} at {ptr:p}", VIEWS[m as usize], kinds()[*k as usize].name));
                    }
                    for i in 0..n {
                        self.at(VIEWS[m as usize], s, i, *k, ptr.wrapping_add(i * sz));
                    }
                }
            }
            for i in &ri {
                for m in [false, true] {
                    let r = (g.refs)(&mut arch, *i as u32, m);
                    for (j, k) in g.ks.iter().enumerate() {
                        self.at("get_fuzzy_components_unchecked", s, *i, *k, r[j]);
                    }
                }
            }
            let _ = gi;
        }
        if self.fails.is_empty() {
            for k in self.ks(s) {
                for i in &ri {
                    let q = (tab().k[*k as usize].get)(&arch, *i as u32);
                    self.at("get_component_unchecked", s, *i, *k, q);
                    let q = (tab().k[*k as usize].get_mut)(&mut arch, *i as u32);
                    self.at("get_component_unchecked_mut", s, *i, *k, q);
                }
            }
        }
        self.a[s] = Some(arch);
        self.ledger();
    }
    fn finish(&mut self, live0: i64) {
        for s in 0..2 {
            if let Some(a) = self.a[s].take() {
                lib(|| drop(a));
                let ks = self.ks(s);
                for r in std::mem::take(&mut self.rows[s]) {
                    self.dropped(&r, ks);
                }
                self.ledger();
            }
        }
        alloc::flush_quarantine();
        let e = alloc::take_err();
        if e != 0 {
            self.fail(18, alloc::err_text(e));
        }
        let d = alloc::live_blocks() - live0;
        if d != 0 {
            self.fail(18, format!("{d} blocks are still allocated after both archetypes were dropped"));
        }
    }
}

const PUSH: u64 = 0;
const PUSH_PARTS: u64 = 1;
const PUSH_WRITE: u64 = 2;
const DROP: u64 = 3;
const REMOVE: u64 = 4;
const LAST: u64 = 5;
const SWAP: u64 = 6;
const REPLACE: u64 = 7;
const ASSIGN: u64 = 8;
const TAKE: u64 = 9;
const MOVE: u64 = 10;
const HANDLE: u64 = 11;
const WRITE: u64 = 12;
const CLEAR: u64 = 13;
const NAMES: [&str; 14] = [
    "push_entity_unchecked",
    "push_uninitialized_entity and write_single_component_unchecked",
    "push_uninitialized_entity and write_entity_unchecked",
    "swap_drop_unchecked",
    "swap_remove_unchecked",
    "swap_to_last_unchecked",
    "swap_entities",
    "read_component_unchecked and write_single_component_unchecked",
    "assign through get_component_unchecked_mut",
    "swap_to_last, read_components_exact and decrement_len",
    "move to the other archetype",
    "set entities_mut()",
    "read_components_exact and write_entity_unchecked",
    "drop_entities and decrement_len",
];
fn enc(kind: u64, s: usize, i: usize, x: usize) -> u64 {
    kind << 56 | (s as u64) << 48 | (i as u64) << 20 | x as u64
}

fn ops(t: &Two, sc: &Scn) -> Vec<u64> {
    let mut v = vec![];
    for s in 0..2 {
        let n = t.rows[s].len();
        let o = t.orders(s);
        let all = s == 0;
        if (n as u32) < sc.maxrows {
            for g in &o {
                v.push(enc(PUSH, s, 0, *g));
                if all {
                    v.push(enc(PUSH_WRITE, s, 0, *g));
                }
            }
            v.push(enc(PUSH_PARTS, s, 0, 0));
        }
        let mut idx: Vec<usize> = if n <= 5 { (0..n).collect() } else { vec![0, 1, n / 2, n - 2, n - 1] };
        idx.dedup();
        for i in &idx {
            v.push(enc(DROP, s, *i, 0));
            for (c, g) in o.iter().enumerate() {
                v.push(enc(REMOVE, s, *i, *g));
                if all && (c < 2 || n < 3) {
                    v.push(enc(TAKE, s, *i, *g));
                    v.push(enc(WRITE, s, *i, *g));
                }
            }
            if (t.rows[1 - s].len() as u32) < sc.maxrows {
                v.push(enc(MOVE, s, *i, 0));
            }
            if all {
                v.push(enc(LAST, s, *i, 0));
                for j in &idx {
                    if i != j {
                        v.push(enc(SWAP, s, *i, *j));
                    }
                }
                for k in t.ks(s) {
                    v.push(enc(REPLACE, s, *i, *k as usize));
                    v.push(enc(ASSIGN, s, *i, *k as usize));
                }
                v.push(enc(HANDLE, s, *i, 0));
            }
        }
        if all {
            v.push(enc(CLEAR, s, 0, 0));
        }
    }
    v
}

/// Executes the history; the failures, the operations possible afterwards, the key of the state reached.
fn play(sc: &Scn, path: &[u64]) -> (Vec<Fail>, Vec<u64>, u128) {
    set_logging(true);
    clear_panics();
    take_drops();
    alloc::take_err();
    alloc::set_quarantine(true);
    let live0 = alloc::live_blocks();
    let mk = |s: usize| {
        let d = (tab().g[sc.g[s]].desc)();
        lib(|| if sc.cap[s] == 128 { Archetype::new(d) } else { Archetype::with_capacity(d, sc.cap[s]) })
    };
    let mut t = Two { a: [Some(mk(0)), Some(mk(1))], g: sc.g, cap: [0; 2], rows: [vec![], vec![]], fails: vec![], drops: vec![], next: 0, nextent: 0 };
    for s in 0..2 {
        t.cap_ok(s);
        if t.cap[s] < if sc.cap[s] > MAX_ENTITIES_PER_ARCHETYPE { 0 } else { sc.cap[s] } {
            let m = format!("an archetype made with capacity {} has capacity {}", sc.cap[s], t.cap[s]);
            t.fail(22, m);
        }
        for _ in 0..sc.fill[s] {
            t.apply(enc(PUSH, s, 0, sc.g[s]));
        }
    }
    for o in path {
        if !t.fails.is_empty() {
            break;
        }
        t.apply(*o);
        t.cap_ok(0);
        t.cap_ok(1);
    }
    let ops = if t.fails.is_empty() { ops(&t, sc) } else { vec![] };
    for s in 0..2 {
        if t.fails.is_empty() {
            t.audit(s);
        }
    }
    let mut k = Key::new();
    for s in 0..2 {
        k.add(t.cap[s] as u64);
        k.add(t.rows[s].len() as u64);
    }
    if t.fails.is_empty() {
        t.finish(live0);
    } else {
        // what the archetypes now contain is unknown
        std::mem::forget(t.a[0].take());
        std::mem::forget(t.a[1].take());
    }
    (t.fails, ops, k.get())
}

fn explore(cx: &Cx) {
    let mut sum = std::collections::BTreeMap::new();
    for (si, sc) in scenarios(cx.prop, cx.thorough()).iter().enumerate() {
        let seen = Seen::new();
        let mut level: Vec<(Vec<u64>, Vec<u64>)> = vec![];
        let w = vec![CODE, (cx.prop as u64) << 16 | si as u64];
        cx.case(&w, || {
            let (f, o, k) = play(sc, &[]);
            seen.insert(k);
            level.push((vec![], o));
            f
        });
        let (mut trans, mut depth) = (0u64, 0);
        while depth < sc.deep && !level.is_empty() && !cx.stopped() {
            let next = std::sync::Mutex::new(vec![]);
            let jobs: Vec<(usize, usize)> = level.iter().enumerate().flat_map(|(i, l)| (0..l.1.len()).map(move |j| (i, j))).collect();
            cx.par(jobs.len(), |x| {
                let (i, j) = jobs[x];
                let mut w = vec![CODE, (cx.prop as u64) << 16 | si as u64];
                w.extend(&level[i].0);
                w.push(level[i].1[j]);
                let mut r = None;
                cx.case(&w, || {
                    let (f, o, k) = play(sc, &w[2..]);
                    r = Some((o, k));
                    f
                });
                if let Some((o, k)) = r {
                    let new = seen.insert(k);
                    if new || depth + 1 < sc.full {
                        next.lock().unwrap().push((w[2..].to_vec(), o));
                    }
                }
                if x % 5003 == 17 {
                    cx.sample(&w);
                }
            });
            trans += jobs.len() as u64;
            level = next.into_inner().unwrap();
            level.sort();
            depth += 1;
        }
        cx.transitions(trans);
        cx.states(seen.len() as u64);
        let e = sum.entry((sc.full.min(depth), depth, level.is_empty())).or_insert((0usize, vec![]));
        e.0 += trans as usize;
        e.1.push(format!("{} ({} states)", sc.name, seen.len()));
    }
    for ((full, depth, closed), (trans, names)) in sum {
        cx.note(format!("archetypes, every sequence to depth {full}, every operation in every (capacity, length) state to depth {depth}{}, {trans} transitions: {}", if closed { " (closed)" } else { "" }, names.join("; ")));
    }
}
fn run(tier: Tier, w: &[Word]) -> Vec<Fail> {
    play(&scenarios((w[1] >> 16) as u32, tier == Tier::Thorough)[w[1] as usize & 0xFFFF], &w[2..]).0
}
fn show(tier: Tier, w: &[Word]) -> String {
    let sc = &scenarios((w[1] >> 16) as u32, tier == Tier::Thorough)[w[1] as usize & 0xFFFF];
    let g = |x: usize| {
        let v: Vec<&str> = tab().g[x].ks.iter().map(|k| kinds()[*k as usize].name).collect();
        format!("({})", v.join(","))
    };
    let s: Vec<String> = w[2..]
        .iter()
        .map(|o| {
            let (kind, s, i, x) = (o >> 56, (o >> 48 & 1) as usize, o >> 20 & 0xFFF_FFFF, (o & 0xF_FFFF) as usize);
            let arg = match kind {
                PUSH | PUSH_WRITE => g(x),
                PUSH_PARTS | CLEAR => String::new(),
                SWAP => format!("{i}, {x}"),
                REPLACE | ASSIGN => format!("{i}, {}", kinds()[x].name),
                REMOVE | TAKE | WRITE => format!("{i}, {}", g(x)),
                _ => format!("{i}"),
            };
            format!("#{s}: {} [{arg}]", NAMES[kind as usize])
        })
        .collect();
    format!("archetypes {}: {}", sc.name, s.join("; "))
}
