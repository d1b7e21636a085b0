//! P10: every pair of orderings of every component set registered, used for every operation.
use crate::core::*;
use crate::hist::*;
use crate::props::*;
use crate::tables::*;
use crate::world::*;

const CODE: u64 = 1010;

pub fn engines() -> Vec<Eng> {
    vec![Eng { code: CODE, explore, run, show }]
}

fn cases(th: bool) -> Vec<(usize, usize)> {
    let t = tables();
    let mut v = vec![];
    let fams = vec![t.pal1.clone(), t.wide.clone(), t.big.clone(), t.pal2.clone()];
    for f in fams {
        for a in f.clone() {
            for b in f.clone() {
                let (ma, mb) = (t.g[a].mask, t.g[b].mask);
                // wide groups: only permutations of each other and the prefixes
                if ma & mb == mb && (f != t.wide || ma == mb || th || a % 2 == 0) {
                    v.push((a, b));
                }
            }
        }
    }
    v
}

fn explore(cx: &Cx) {
    let v = cases(cx.thorough());
    cx.par(v.len(), |i| {
        let w = [CODE, v[i].0 as u64, v[i].1 as u64];
        cx.case(&w, || run(cx.tier, &w));
        if i % 997 == 5 {
            cx.sample(&w);
        }
    });
    cx.count("pairs of group orderings", v.len() as u64);
    cx.states(v.len() as u64);
    cx.transitions(v.len() as u64 * 20);
}

/// Uses ordering `a` to create and ordering `b` for everything else.
fn play(a: usize, b: usize) -> (Vec<Fail>, Vec<u64>) {
    let t = tables();
    let mut w = World::new();
    let same = t.g[a].mask == t.g[b].mask;
    let other = t.of_mask(1 << t.g[a].ks[t.g[a].ks.len() - 1]).unwrap_or(a);
    let mut o = obs(&t.g[a].ks.to_vec(), vec![b]);
    o.ents = true;
    o.live = true;
    o.modes = 0xFFF;
    o.preds = vec![PRED_TRUE, pred_len(1)];
    w.apply(op(CREATE, a as u64, 0));
    w.apply(op(CREATE, b as u64, 0));
    w.apply(op(CREATE, other as u64, 0));
    w.apply(op(CREATE, a as u64, 0));
    w.observe(&o);
    w.apply(op(SETG, 0, b as u64));
    for m in [1u64, 3, 5, 7, 9, 11] {
        w.apply(op(ITERSET, b as u64, m));
    }
    w.observe(&o);
    let mut snap = w.snapshot(t.g[a].mask, &[b], true);
    w.apply(op(REMOVE, 0, b as u64));
    snap.extend(w.last.clone());
    if same {
        w.apply(op(REMOVE, 1, a as u64));
    }
    w.observe(&o);
    w.apply(op(REMOVE, 3, b as u64));
    let values = t.g[a].mask == t.g[b].mask;
    snap.extend(w.snapshot(t.g[a].mask, &[b], values));
    w.finish();
    (w.into_fails(), snap)
}

fn run(_: Tier, w: &[Word]) -> Vec<Fail> {
    let t = tables();
    let (a, b) = (w[1] as usize, w[2] as usize);
    let (mut f, _) = play(a, b);
    let (ca, cb) = (canonical_group(a), canonical_group(b));
    if f.iter().any(|x| x.props & p(10) == 0) && (ca, cb) != (a, b) && play(ca, cb).0.is_empty() {
        f.iter_mut().for_each(|x| x.props |= p(10));
    }
    // the descriptors of permutations denote the same set
    let (da, db) = ((t.g[a].desc)(), (t.g[b].desc)());
    let mut bad = |m: &str| f.push(Fail { props: p(10), msg: format!("{} and {}: {m}", t.name(a), t.name(b)) });
    if t.g[a].mask == t.g[b].mask {
        if da.archetype().archetype_id() != db.archetype().archetype_id() {
            bad("permutations of one group have different set identifiers");
        }
        if da.len() != db.len() || da.archetype().components() != db.archetype().components() {
            bad("permutations of one group have different descriptors");
        }
    }
    if !da.archetype().contains_subset(db.archetype()) {
        bad("a subset is not contained");
    }
    f
}

fn show(_: Tier, w: &[Word]) -> String {
    let t = tables();
    format!("entities created as {}, read, written, iterated and removed as {}", t.name(w[1] as usize), t.name(w[2] as usize))
}
