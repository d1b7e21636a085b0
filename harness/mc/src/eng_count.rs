//! P15: every set of up to 14 component kinds, reached by single additions in several orders, shrunk again.
use crate::core::*;
use crate::hist::obs;
use crate::props::Eng;
use crate::tables::*;
use crate::world::*;

pub fn engines() -> Vec<Eng> {
    vec![Eng { code: 1015, explore, run: |_, w| play(w), show }]
}
const C: Word = 1015;
const SUBSET: Word = 1;
const CHAIN: Word = 2;
const GROUP: Word = 3;
const N: usize = 14;
const EXTRA: usize = 14;

/// The kinds of `m` in the order `o`: rotation by o/2, reversed if o is odd.
fn order(m: u32, o: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..15).filter(|k| m >> k & 1 == 1).collect();
    let r = (o / 2) % v.len();
    v.rotate_left(r);
    if o % 2 == 1 {
        v.reverse();
    }
    v
}
fn audit(w: &mut World) {
    audit_as(w, vec![])
}
fn audit_as(w: &mut World, groups: Vec<usize>) {
    let mut o = obs(&(0..15).collect::<Vec<u8>>(), groups);
    o.live = true;
    o.ents = true;
    let ms: Vec<u32> = w.live_ids().iter().map(|i| w.ents[*i].mask).collect();
    for m in ms {
        if let Some(g) = tables().of_mask(m) {
            if !o.groups.contains(&g) {
                o.groups.push(g);
            }
        }
    }
    o.modes = 0xC0C;
    w.observe(&o);
}
fn add(w: &mut World, e: usize, k: usize) {
    w.apply(op(ADD, e as u64, k as u64))
}
fn rem(w: &mut World, e: usize, k: usize) {
    w.apply(op(REM, e as u64, k as u64))
}
fn single(k: usize) -> Word {
    op(CREATE, tables().find(&[k as u8]) as u64, 0)
}

fn play(c: &[Word]) -> Vec<Fail> {
    let mut w = World::new();
    w.always = p(15);
    let t = tables();
    match c[1] {
        SUBSET => {
            let m = c[2] as u32;
            let ks = order(m, c[3] as usize);
            w.apply(single(ks[0]));
            // a companion that must not be disturbed
            w.apply(single(ks[0]));
            for k in &ks[1..] {
                add(&mut w, 0, *k);
            }
            audit(&mut w);
            for k in 0..15 {
                if w.dead {
                    break;
                }
                if m >> k & 1 == 1 {
                    add(&mut w, 0, k);
                    rem(&mut w, 0, k);
                    add(&mut w, 0, k);
                } else {
                    rem(&mut w, 0, k);
                    add(&mut w, 0, k);
                    rem(&mut w, 0, k);
                }
            }
            audit(&mut w);
            // as a whole, where such a tuple is registered
            if let (Some(g), false) = (t.of_mask(m), w.dead) {
                w.apply(op(CREATE, g as u64, 0));
                audit(&mut w);
                w.apply(op(REMOVE, 0, g as u64));
                w.apply(op(REMOVE, 2, g as u64));
            }
            w.finish();
        }
        CHAIN => {
            let full = (1u32 << N) - 1;
            let up = order(full, c[2] as usize);
            let down = order(full, c[3] as usize);
            w.apply(single(up[0]));
            w.apply(single(up[0]));
            for k in &up[1..] {
                add(&mut w, 0, *k);
                audit(&mut w);
            }
            add(&mut w, 0, EXTRA);
            audit(&mut w);
            for k in &down {
                // the last one cannot be removed
                rem(&mut w, 0, *k);
                audit(&mut w);
            }
            w.finish();
        }
        GROUP => {
            let g = c[2] as usize;
            let m = t.g[g].mask;
            for _ in 0..3 {
                w.apply(op(CREATE, g as u64, 0));
            }
            audit_as(&mut w, vec![g]);
            let ks = order(m, c[3] as usize);
            let gone = ks.len() - 1;
            for k in &ks[..gone] {
                rem(&mut w, 1, *k);
                audit(&mut w);
            }
            rem(&mut w, 1, ks[gone]);
            for k in &ks[..gone] {
                add(&mut w, 1, *k);
            }
            audit(&mut w);
            for k in 0..15 {
                add(&mut w, 2, k);
            }
            audit(&mut w);
            w.finish();
        }
        _ => {}
    }
    w.into_fails()
}

fn explore(cx: &Cx) {
    let mut cases: Vec<[Word; 4]> = vec![];
    let th = cx.thorough();
    let orders: Vec<usize> = if th { (0..28).collect() } else { vec![0, 1, 2, 5, 8, 13, 20, 27] };
    for m in 1u64..1 << 15 {
        if m.count_ones() > 14 {
            continue;
        }
        // the sets with the fifteenth kind only up to 5 and from 11 components in the quick run
        if m >> 14 & 1 == 1 && !th && (6..11).contains(&m.count_ones()) {
            continue;
        }
        for o in &orders {
            if *o < 2 * m.count_ones() as usize {
                cases.push([C, SUBSET, m, *o as u64]);
            }
        }
    }
    let ns = cases.len();
    for u in 0..28 {
        for d in 0..28 {
            cases.push([C, CHAIN, u, d]);
        }
    }
    let nc = cases.len();
    let t = tables();
    for g in 0..t.g.len() {
        if t.g[g].wf && t.g[g].mask < 1 << 15 {
            for o in 0..2 * t.g[g].ks.len() as u64 {
                cases.push([C, GROUP, g as u64, o]);
            }
        }
    }
    let calls = std::sync::atomic::AtomicU64::new(0);
    cx.par(cases.len(), |i| {
        cx.case(&cases[i], || play(&cases[i]));
        calls.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if i % 9001 == 5 {
            cx.sample(&cases[i]);
        }
    });
    cx.states(cases.len() as u64);
    cx.transitions(45 * calls.into_inner());
    cx.note(format!("component counts: {ns} (set, order of additions) pairs with every kind toggled in each; {} (order up, order down) pairs through all counts; {} (tuple type, order of removal) pairs for every registered tuple of 1..14 components", nc - ns, cases.len() - nc));
}
fn show(_: Tier, w: &[Word]) -> String {
    let t = tables();
    let n = |v: Vec<usize>| v.iter().map(|k| mcbase::comps::kinds()[*k].name).collect::<Vec<_>>().join(",");
    match w[1] {
        SUBSET => format!("entity given {{{}}} one at a time; then each kind toggled", n(order(w[2] as u32, w[3] as usize))),
        CHAIN => format!("entity given {} one at a time, then relieved of {}", n(order((1 << N) - 1, w[2] as usize)), n(order((1 << N) - 1, w[3] as usize))),
        _ => format!("three entities {}; one relieved of {} and given them back; one given all others", t.name(w[2] as usize), n(order(t.g[w[2] as usize].mask, w[3] as usize))),
    }
}
