//! P23: the entity table used directly. Every sequence of create/destroy/relocate over few slots, from bases with
//! advanced versions and long free lists; and the table filled to its limit.
use crate::core::*;
use crate::eng_data::bad;
use crate::props::*;
use mcbase::alloc::lib;
use shard_ecs::*;
use std::collections::BTreeMap;

const CODE: u64 = 1023;
pub fn engines() -> Vec<Eng> {
    vec![Eng { code: CODE, explore, run, show }]
}
const LOCS: [(u32, u16); 4] = [(0, 0), (16_777_214, 65_534), (0x01_0203, 0x0405), (0xFE_00FF, 0xFF00)];
fn loc(l: usize) -> (IndexInArchetype, ArchetypeIndex) {
    (IndexInArchetype::new(LOCS[l].0).unwrap(), ArchetypeIndex::new(LOCS[l].1).unwrap())
}

struct Table {
    r: EntityRegistry,
    /// Per slot: version of the next or current handle; the location while live.
    slots: BTreeMap<u32, (u8, Option<usize>)>,
    /// Released slots in the order of release.
    free: Vec<u32>,
    ever: Vec<u32>,
}
type R = Result<(), String>;
fn h(raw: u32) -> Entity {
    unsafe { Entity::from_raw(raw) }
}
fn hs(e: Entity) -> String {
    format!("({}, v{})", e.index(), e.version())
}

impl Table {
    fn new() -> Table {
        Table { r: EntityRegistry::default(), slots: BTreeMap::new(), free: vec![], ever: vec![] }
    }
    fn live(&self, e: Entity) -> Option<usize> {
        match self.slots.get(&e.index()) {
            Some((v, Some(l))) if *v == e.version() => Some(*l),
            _ => None,
        }
    }
    fn create(&mut self, l: usize) -> R {
        let (i, a) = loc(l);
        let Some(e) = lib(|| self.r.create_entity(i, a)) else { return Err(format!("create is refused with {} slots", self.slots.len())) };
        if self.live(e).is_some() || e == Entity::INVALID {
            return Err(format!("create returns {}, which is live or invalid", hs(e)));
        }
        match self.slots.get_mut(&e.index()) {
            Some(s) => {
                if s.1.is_some() || !self.free.contains(&e.index()) {
                    return Err(format!("create returns {} while that slot is occupied", hs(e)));
                }
                if s.0 != e.version() {
                    return Err(format!("create returns {} but the slot is at version {}", hs(e), s.0));
                }
                s.1 = Some(l);
                self.free.retain(|x| *x != e.index());
            }
            None => {
                if !self.free.is_empty() {
                    return Err(format!("create uses a new slot ({}) while {} released slots exist", hs(e), self.free.len()));
                }
                if e.version() != 0 {
                    return Err(format!("a new slot starts as {}", hs(e)));
                }
                self.slots.insert(e.index(), (0, Some(l)));
            }
        }
        self.ever.push(e.raw());
        Ok(())
    }
    fn destroy(&mut self, e: Entity) -> R {
        let want = self.live(e).is_some();
        let got = lib(|| self.r.destroy_entity(e));
        if got != want {
            return Err(format!("destroying {} {}, although it is {}live", hs(e), if got { "succeeds" } else { "fails" }, if want { "" } else { "not " }));
        }
        if want {
            let s = self.slots.get_mut(&e.index()).unwrap();
            *s = (s.0.wrapping_add(1), None);
            self.free.push(e.index());
        }
        Ok(())
    }
    fn set(&mut self, e: Entity, l: usize, part: u32) -> R {
        let Some(entry) = self.r.entity_entry_mut(e) else { return Err(format!("no entry for the live {}", hs(e))) };
        let (i, a) = loc(l);
        if part & 1 != 0 {
            entry.set_index_in_archetype(i);
        }
        if part & 2 != 0 {
            entry.set_archetype_index(a.value());
        }
        self.slots.get_mut(&e.index()).unwrap().1 = Some(l);
        Ok(())
    }
    fn probes(&self) -> Vec<u32> {
        let mut v: Vec<u32> = self.ever.clone();
        let n = self.slots.len() as u32;
        for (i, (ver, _)) in self.slots.iter().take(8) {
            for d in [0u8, 1, 255, 128] {
                v.push(i << 8 | ver.wrapping_add(d) as u32);
            }
        }
        v.extend([u32::MAX, n << 8, (n + 1) << 8 | 255, 0xFFFF_FF00, 0xFFFF_FEFF]);
        v.sort();
        v.dedup();
        v
    }
    fn one(&mut self, e: Entity) -> R {
        let want = self.live(e);
        let a = lib(|| self.r.entity_entry(e)).map(|x| (x.index_in_archetype().value(), x.archetype_index(), x.version(), x.is_valid()));
        let b = lib(|| self.r.entity_entry_mut(e)).map(|x| (x.index_in_archetype().value(), x.archetype_index(), x.version(), x.is_valid()));
        let w = want.map(|l| (LOCS[l].0, LOCS[l].1, e.version(), true));
        if a != w || b != w {
            return Err(format!("{}: (row, set, version, valid) read {:?} and {:?}, expected {:?}", hs(e), a, b, w));
        }
        Ok(())
    }
    fn audit(&mut self, probes: &[u32]) -> R {
        for p in probes {
            self.one(h(*p))?;
        }
        let mut want: Vec<u32> = self.slots.iter().filter(|x| x.1 .1.is_some()).map(|(i, s)| i << 8 | s.0 as u32).collect();
        let mut got: Vec<u32> = {
            let mut it = self.r.iter();
            let mut v = vec![];
            while let Some(e) = it.next() {
                v.push(e.raw());
                if v.len() > want.len() + 8 {
                    break;
                }
            }
            if it.next().is_some() {
                return Err("the iteration yields more than the live entities, or goes on after its end".into());
            }
            v
        };
        want.sort();
        got.sort();
        if got != want {
            let x: Vec<String> = got.iter().take(12).map(|e| hs(h(*e))).collect();
            let y: Vec<String> = want.iter().take(12).map(|e| hs(h(*e))).collect();
            return Err(format!("iteration yields {} entities {x:?}, expected {} {y:?}", got.len(), want.len()));
        }
        if !self.r.can_register_new_entity() {
            return Err(format!("no entity can be registered with {} slots", self.slots.len()));
        }
        Ok(())
    }
    fn key(&self) -> u128 {
        let mut k = Key::new();
        for (i, (v, l)) in &self.slots {
            k.add(*i as u64);
            k.add(*v as u64 | l.map_or(9, |l| l as u64) << 8);
        }
        k.add(u64::MAX);
        for f in &self.free {
            k.add(*f as u64);
        }
        k.get()
    }
}

const BASES: [&str; 12] = [
    "empty table",
    "slot 0 released 254 times",
    "slot 0 released 255 times",
    "slot 0 released 256 times",
    "slots 0 and 1 released 255 and 128 times",
    "300 slots, all live",
    "300 slots, every second released",
    "300 slots, all released in ascending order",
    "300 slots, all released in descending order",
    "257 slots released 0 to 256 times",
    "slot 0 released 127 times, live",
    "two slots released 256 and 257 times",
];
fn base(b: u64) -> Result<Table, String> {
    let mut t = Table::new();
    let cycle = |t: &mut Table, n: usize| -> R {
        for _ in 0..n {
            t.create(0)?;
            let e = h(*t.ever.last().unwrap());
            t.destroy(e)?;
        }
        Ok(())
    };
    match b {
        0 => {}
        1 => cycle(&mut t, 254)?,
        2 => cycle(&mut t, 255)?,
        3 => cycle(&mut t, 256)?,
        4 => {
            cycle(&mut t, 255)?;
            t.create(0)?;
            cycle(&mut t, 128)?;
            let e = h(t.ever[255]);
            t.destroy(e)?;
        }
        5..=8 => {
            for i in 0..300 {
                t.create(i % 4)?;
            }
            let all = t.ever.clone();
            match b {
                6 => all.iter().step_by(2).try_for_each(|e| t.destroy(h(*e)))?,
                7 => all.iter().try_for_each(|e| t.destroy(h(*e)))?,
                8 => all.iter().rev().try_for_each(|e| t.destroy(h(*e)))?,
                _ => {}
            }
        }
        9 => {
            for i in 0..257usize {
                cycle(&mut t, i)?;
                t.create(i % 4)?;
            }
        }
        10 => {
            cycle(&mut t, 127)?;
            t.create(1)?;
        }
        _ => {
            cycle(&mut t, 256)?;
            t.create(2)?;
            cycle(&mut t, 257)?;
        }
    }
    // keep the probes of long histories few: the first and the last handles
    if t.ever.len() > 24 {
        let n = t.ever.len();
        let mut v: Vec<u32> = t.ever[..6].to_vec();
        v.extend(&t.ever[n - 6..]);
        v.extend(t.slots.iter().take(4).filter(|x| x.1 .1.is_some()).map(|(i, s)| i << 8 | s.0 as u32));
        v.sort();
        v.dedup();
        t.ever = v;
    }
    Ok(t)
}
fn ops(t: &Table, th: bool) -> Vec<u64> {
    let mut v = vec![];
    for l in 0..4u64 {
        if l < 2 || th {
            v.push(1 << 60 | l << 40);
        }
    }
    let mut lives = 0;
    for p in t.probes() {
        v.push(2 << 60 | p as u64);
        if t.live(h(p)).is_some() {
            lives += 1;
            if lives <= 6 {
                v.push(3 << 60 | 2 << 40 | p as u64);
            }
        }
    }
    v
}
fn step(t: &mut Table, o: u64) -> R {
    let l = (o >> 40 & 0xFF) as usize;
    let e = h(o as u32);
    match o >> 60 {
        1 => t.create(l),
        2 => t.destroy(e),
        _ => {
            // one part after the other; in between the entry mixes the two
            t.set(e, l, 1)?;
            t.set(e, l, 2)
        }
    }
}

fn explore(cx: &Cx) {
    for b in 0..BASES.len() as u64 {
        let depth = match (b, cx.thorough()) {
            (0, false) => 8,
            (0, true) => 10,
            (5..=9, false) => 3,
            (5..=9, true) => 4,
            (_, false) => 5,
            (_, true) => 7,
        };
        let seen = Seen::new();
        let mut level: Vec<Vec<u64>> = vec![vec![]];
        let mut trans = 0u64;
        for _ in 0..depth {
            if level.is_empty() || cx.stopped() {
                break;
            }
            let next = std::sync::Mutex::new((vec![], 0u64));
            cx.par(level.len(), |i| {
                let path = &level[i];
                let mut ol = vec![];
                let mut w = vec![CODE, 0, b];
                w.extend(path);
                cx.case(&w, || match replay(b, path) {
                    Ok(t) => {
                        ol = ops(&t, cx.thorough());
                        vec![]
                    }
                    Err(e) => bad(23, e),
                });
                let mut out = vec![];
                for o in &ol {
                    let mut w = w.clone();
                    w.push(*o);
                    let mut k = None;
                    cx.case(&w, || {
                        let r = replay(b, &w[3..]).and_then(|mut t| {
                            let p = t.probes();
                            t.audit(&p)?;
                            k = Some(t.key());
                            Ok(())
                        });
                        match r {
                            Ok(()) => vec![],
                            Err(e) => bad(23, e),
                        }
                    });
                    if let Some(k) = k {
                        if seen.insert(k) {
                            out.push(w[3..].to_vec());
                        }
                    }
                }
                let mut n = next.lock().unwrap();
                n.0.extend(out);
                n.1 += ol.len() as u64;
            });
            let (v, n) = next.into_inner().unwrap();
            level = v;
            level.sort();
            trans += n;
        }
        // and every sequence without merging of states
        let free = match (b, cx.thorough()) {
            (0, false) => 5,
            (0, true) => 6,
            (5..=9, false) => 2,
            (_, false) | (5..=9, true) => 3,
            (_, true) => 4,
        };
        let first = replay(b, &[]).map(|t| ops(&t, cx.thorough())).unwrap_or_default();
        let seqs = std::sync::atomic::AtomicU64::new(0);
        cx.par(first.len(), |i| {
            let mut stack = vec![vec![first[i]]];
            let mut n = 0;
            while let Some(path) = stack.pop() {
                if cx.stopped() {
                    return;
                }
                let mut w = vec![CODE, 0, b];
                w.extend(&path);
                let mut ol = vec![];
                cx.case(&w, || {
                    let r = replay(b, &path).and_then(|mut t| {
                        let p = t.probes();
                        t.audit(&p)?;
                        if path.len() < free {
                            ol = ops(&t, cx.thorough());
                        }
                        Ok(())
                    });
                    match r {
                        Ok(()) => vec![],
                        Err(e) => bad(23, e),
                    }
                });
                n += 1;
                for o in ol {
                    let mut p = path.clone();
                    p.push(o);
                    stack.push(p);
                }
            }
            seqs.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
        });
        let seqs = seqs.into_inner();
        trans += seqs;
        cx.count("sequences without merging of states", seqs);
        cx.states(seen.len() as u64);
        cx.transitions(trans);
        cx.note(format!("{}: complete to depth {depth}, {} states, {trans} transitions", BASES[b as usize], seen.len()));
    }
    let which: &[u64] = if cx.thorough() { &[0, 1, 2, 3, 4, 5, 6] } else { &[1, 4, 5, 6] };
    let n = which.len();
    cx.par(n, |i| {
        let w = [CODE, 1, which[i]];
        cx.case(&w, || run(cx.tier, &w));
        cx.sample(&w);
    });
    cx.states(n as u64 * 16_777_215);
    cx.transitions(n as u64 * 16_777_215 * 3);
    cx.count("tables filled to 16777215 slots", n as u64);
}
fn replay(b: u64, path: &[u64]) -> Result<Table, String> {
    let mut t = base(b)?;
    for o in path {
        step(&mut t, *o)?;
    }
    Ok(t)
}

const LIMITS: [&str; 7] = ["the first slot", "the last slot", "slot 8388608", "all slots in ascending order", "all slots in descending order", "every 65536th slot", "four slots, three of which were used 300 times before, 300 times"];
const MAXN: u32 = 16_777_215;
/// Fills the table, checks the limit, releases some slots, fills it again.
fn limit(which: u64) -> R {
    mcbase::alloc::set_quarantine(false);
    let mut r = EntityRegistry::default();
    let at = |i: u32| unsafe { (IndexInArchetype::new_unchecked(i.wrapping_mul(0x9E_3779) % MAXN), ArchetypeIndex::new((i % 65_535) as u16).unwrap()) };
    let mut used = vec![0u64; (MAXN as usize >> 6) + 1];
    let mut ver = vec![0u8; MAXN as usize];
    if which == 6 {
        for _ in 0..300 {
            let mut es = vec![];
            for _ in 0..3 {
                match r.create_entity(at(0).0, at(0).1) {
                    Some(e) if e.index() < 3 && e.version() == ver[e.index() as usize] && !es.contains(&e) => es.push(e),
                    r => return Err(format!("creation in a table of three slots returns {:?}", r.map(hs))),
                }
            }
            for e in es {
                if !r.destroy_entity(e) {
                    return Err(format!("releasing {}", hs(e)));
                }
                ver[e.index() as usize] = ver[e.index() as usize].wrapping_add(1);
            }
        }
    }
    for i in 0..MAXN {
        if !r.can_register_new_entity() {
            return Err(format!("no entity can be registered with {i} live entities"));
        }
        let (a, b) = at(i);
        match r.create_entity(a, b) {
            Some(e) if e.index() < MAXN && e.version() == ver[e.index() as usize] && used[e.index() as usize >> 6] >> (e.index() & 63) & 1 == 0 => {
                used[e.index() as usize >> 6] |= 1 << (e.index() & 63);
                if e.index() != i {
                    let (a, b) = at(e.index());
                    let x = r.entity_entry_mut(e).ok_or("the entry of a new entity is missing")?;
                    x.set_index_in_archetype(a);
                    x.set_archetype_index(b.value());
                }
            }
            r => return Err(format!("creation {i} returns {:?}", r.map(hs))),
        }
    }
    let full = |r: &mut EntityRegistry| -> R {
        for _ in 0..3 {
            if r.can_register_new_entity() {
                return Err("an entity can be registered at the limit".into());
            }
            if let Some(e) = r.create_entity(at(0).0, at(0).1) {
                return Err(format!("creation at the limit returns {}", hs(e)));
            }
        }
        Ok(())
    };
    full(&mut r)?;
    let check = |r: &mut EntityRegistry, ver: &[u8]| -> R {
        for i in 0..MAXN {
            let e = unsafe { Entity::new_unchecked(i, ver[i as usize]) };
            let (a, b) = at(i);
            match r.entity_entry(e) {
                Some(x) if x.index_in_archetype() == a && x.archetype_index() == b.value() => {}
                _ => return Err(format!("the entry of {} is lost or has another location", hs(e))),
            }
            let old = unsafe { Entity::new_unchecked(i, ver[i as usize].wrapping_sub(1)) };
            if r.entity_entry(old).is_some() || r.entity_entry_mut(old).is_some() || (i % 4096 == 7 && r.destroy_entity(old)) {
                return Err(format!("the handle {} reaches the entity {}", hs(old), hs(e)));
            }
        }
        for e in [Entity::INVALID, unsafe { Entity::new_unchecked(MAXN, 0) }, unsafe { Entity::new_unchecked(MAXN, 254) }] {
            if r.entity_entry(e).is_some() || r.destroy_entity(e) {
                return Err(format!("the handle {} is accepted", hs(e)));
            }
        }
        let mut n = 0;
        let mut bits = vec![0u64; (MAXN as usize >> 6) + 1];
        for e in r.iter() {
            let (w, b) = (e.index() as usize >> 6, 1u64 << (e.index() & 63));
            if e.index() >= MAXN || ver[e.index() as usize] != e.version() || bits[w] & b != 0 {
                return Err(format!("iteration yields {} (not live, or a second time)", hs(e)));
            }
            bits[w] |= b;
            n += 1;
        }
        if n != MAXN {
            return Err(format!("iteration yields {n} entities instead of {MAXN}"));
        }
        Ok(())
    };
    check(&mut r, &ver)?;
    let list: Vec<u32> = match which {
        0 => vec![0],
        1 => vec![MAXN - 1],
        2 => vec![8_388_608],
        3 => (0..MAXN).collect(),
        4 => (0..MAXN).rev().collect(),
        5 => (0..MAXN).step_by(65536).collect(),
        _ => vec![0, 1, 2, MAXN - 1],
    };
    for _ in 0..if which == 6 { 300 } else { 1 } {
        for i in &list {
            let e = unsafe { Entity::new_unchecked(*i, ver[*i as usize]) };
            if !r.destroy_entity(e) || r.destroy_entity(e) || !r.can_register_new_entity() {
                return Err(format!("releasing {} at the limit", hs(e)));
            }
            ver[*i as usize] = ver[*i as usize].wrapping_add(1);
            used[*i as usize >> 6] &= !(1 << (i & 63));
        }
        for n in 0..list.len() {
            match r.create_entity(at(0).0, at(0).1) {
                Some(e) if e.index() < MAXN && ver[e.index() as usize] == e.version() && used[e.index() as usize >> 6] >> (e.index() & 63) & 1 == 0 => {
                    used[e.index() as usize >> 6] |= 1 << (e.index() & 63);
                    let (a, b) = at(e.index());
                    let x = r.entity_entry_mut(e).ok_or("the entry of a new entity is missing")?;
                    x.set_index_in_archetype(a);
                    x.set_archetype_index(b.value());
                }
                x => return Err(format!("creation after {} releases at the limit returns {:?} (number {n})", list.len(), x.map(hs))),
            }
        }
        full(&mut r)?;
    }
    full(&mut r)?;
    check(&mut r, &ver)
}

fn run(_: Tier, w: &[Word]) -> Vec<Fail> {
    let r = match w[1] {
        0 => replay(w[2], &w[3..]).and_then(|mut t| {
            let p = t.probes();
            t.audit(&p)
        }),
        _ => limit(w[2]),
    };
    match r {
        Ok(()) => vec![],
        Err(e) => bad(23, e),
    }
}
fn show(_: Tier, w: &[Word]) -> String {
    if w[1] == 1 {
        return format!("entity table filled to {MAXN}, then {} released and created again", LIMITS[w[2] as usize]);
    }
    let s: Vec<String> = w[3..]
        .iter()
        .map(|o| {
            let l = LOCS[(o >> 40 & 3) as usize];
            match o >> 60 {
                1 => format!("create at row {} of set {}", l.0, l.1),
                2 => format!("destroy {}", hs(h(*o as u32))),
                _ => format!("set location of {} to row {} of set {}", hs(h(*o as u32)), l.0, l.1),
            }
        })
        .collect();
    format!("entity table [{}]: {}", BASES[w[2] as usize], s.join("; "))
}
