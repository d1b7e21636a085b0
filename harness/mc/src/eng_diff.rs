//! Differential checks on registry histories: P11 (a failing operation changes nothing) and P27 (registries are
//! independent and deterministic).
use crate::core::*;
use crate::hist::*;
use crate::props::*;
use crate::tables::*;
use crate::world::*;

// ------------------------------------------------------------------------------------------------ P11

/// Every operation that must fail in the current state.
pub fn failing_ops(s: &Scn, w: &World) -> Vec<Word> {
    let t = tables();
    let mut v = vec![];
    for g in t.bad.clone() {
        v.push(op(CREATE, g as u64, 0));
    }
    let mut es: Vec<usize> = w.live_ids();
    if es.len() > 6 {
        let n = es.len();
        es = vec![es[0], es[n / 2], es[n - 1]];
    }
    for e in es {
        let m = w.ents[e].mask;
        for g in s.removes.iter().copied() {
            if !t.g[g].wf || t.g[g].mask != m {
                v.push(op(REMOVE, e as u64, g as u64));
            }
            if !t.g[g].wf || m & t.g[g].mask != t.g[g].mask {
                v.push(op(SETG, e as u64, g as u64));
                v.push(op(READG, e as u64, g as u64));
            }
        }
        for k in &s.kinds {
            let has = m >> k & 1 == 1;
            if has || m.count_ones() >= 14 {
                v.push(op(ADD, e as u64, *k as u64));
            }
            if !has || m.count_ones() == 1 {
                v.push(op(REM, e as u64, *k as u64));
            }
            if !has {
                v.push(op(SET, e as u64, *k as u64));
                v.push(op(READ, e as u64, *k as u64));
            }
        }
    }
    let dead: Vec<usize> = (0..w.ents.len()).filter(|i| !w.ents[*i].alive && w.must_refuse(w.ents[*i].h)).collect();
    let nd = dead.len();
    let mut hs: Vec<usize> = dead.into_iter().enumerate().filter(|(i, _)| *i < 2 || *i + 2 >= nd).map(|x| x.1).collect();
    hs.extend([SP_INVALID, SP_BEYOND, SP_MAXIDX]);
    for h in hs {
        v.push(op(DESTROY, h as u64, 0));
        for k in s.kinds.iter().take(2) {
            for c in [ADD, REM, SET, READ] {
                v.push(op(c, h as u64, *k as u64));
            }
        }
        for g in s.removes.iter().take(3) {
            for c in [REMOVE, SETG, READG] {
                v.push(op(c, h as u64, *g as u64));
            }
        }
    }
    for g in t.bad.clone().take(6) {
        for m in 0..12u64 {
            if m % 2 == 1 {
                v.push(op(ITERSET, g as u64, m));
            }
        }
    }
    v
}

/// What is done after the failing operations, the same on both registries.
fn follow_up(s: &Scn, w: &World) -> Vec<Word> {
    let mut v = vec![];
    let ids = w.live_ids();
    for g in &s.creates {
        v.push(op(CREATE, *g as u64, 0));
    }
    let n = ids.len();
    if n > 0 {
        for k in &s.kinds {
            v.push(op(ADD, ids[0] as u64, *k as u64));
        }
        for k in &s.kinds {
            v.push(op(REM, ids[n / 2] as u64, *k as u64));
        }
        v.push(op(DESTROY, ids[n - 1] as u64, 0));
        v.push(op(DESTROY, ids[0] as u64, 0));
    }
    for g in &s.creates {
        v.push(op(CREATE, *g as u64, 0));
    }
    v
}

pub fn p11(s: &Scn, path: &[Word], w: &mut World) {
    let ctr = w.ctr;
    let gs = &s.obs.groups;
    let km = s.kmask();
    let ops = failing_ops(s, w);
    let single = w.live_count() < 20;
    let before = w.snapshot(km, gs, true);
    for o in &ops {
        w.apply(*o);
        if w.dead {
            return;
        }
        if single && w.snapshot(km, gs, true) != before {
            w.fail(p(11), format!("{} failed, but the registry changed", show_op(*o)));
            return;
        }
    }
    if !single && w.snapshot(km, gs, true) != before {
        w.fail(p(11), format!("the registry changed although all of these failed: {}", show_ops(&ops)));
        return;
    }
    if w.fails.iter().any(|f| f.props & p(11) != 0) {
        return;
    }
    let mut t = build(s, path);
    w.ctr = ctr.max(t.ctr);
    t.ctr = w.ctr;
    let f = follow_up(s, &t);
    for o in &f {
        w.apply(*o);
        t.apply(*o);
        if w.dead != t.dead || w.last != t.last {
            w.fail(p(11), format!("after the failed operations, {} behaves differently than without them ({:?} / {:?})", show_op(*o), w.last, t.last));
            return;
        }
        if w.dead {
            return;
        }
    }
    if w.snapshot(km, gs, true) != t.snapshot(km, gs, true) {
        w.fail(p(11), format!("after the failed operations, [{}] leads to a different state than without them", show_ops(&f)));
    }
}

// ------------------------------------------------------------------------------------------------ P27

/// The same history on a second registry, while the first is alive and after unrelated work on a third.
pub fn p27(s: &Scn, path: &[Word], w: &mut World) {
    let gs = &s.obs.groups;
    let km = s.kmask();
    let mut noise = World::new();
    for o in noise_ops(s) {
        noise.apply(o);
    }
    let a = w.snapshot(km, gs, true);
    let mut t = build(s, path);
    let b = t.snapshot(km, gs, true);
    let n = s.base.len() + path.len();
    let same = w.dead == t.dead && a == b && w.hist[..n.min(w.hist.len())] == t.hist[..n.min(t.hist.len())];
    w.fails.clear();
    if !same {
        w.fail(p(27), "a second registry with the same history shows different handles, results, rows or order".into());
    }
}
fn noise_ops(s: &Scn) -> Vec<Word> {
    let mut v = vec![];
    for g in s.creates.iter().rev() {
        v.push(op(CREATE, *g as u64, 0));
        v.push(op(CREATE, *g as u64, 0));
    }
    v.push(op(DESTROY, 0, 0));
    for k in &s.kinds {
        v.push(op(ADD, 1, *k as u64));
    }
    v
}

const CODE: u64 = 1027;
pub fn engines() -> Vec<Eng> {
    vec![Eng { code: CODE, explore, run, show }]
}

/// The operations of the interleaved histories.
fn alphabet() -> Vec<Word> {
    let a = gi(&[A]) as u64;
    let ha = gi(&[H, A]) as u64;
    let w = gi(&[W]) as u64;
    vec![
        op(CREATE, a, 0),
        op(CREATE, ha, 0),
        op(CREATE, w, 0),
        op(DESTROY, 0, 0),
        op(ADD, 0, H as u64),
        op(REM, 0, A as u64),
        op(REMOVE, 0, a),
        op(SET, 0, A as u64),
        op(ITERSET, a, 3),
        op(READ, 0, A as u64),
        op(ADD, 1, W as u64),
        op(RESET, 0, 0),
        op(MOVED, 0, 0),
    ]
}
fn valid(h: &[Word]) -> bool {
    // entity references must exist
    let mut n = 0;
    for o in h {
        let (c, a, _) = dec(*o);
        match c {
            CREATE => n += 1,
            RESET => n = 0,
            ITERSET | MOVED => {}
            _ => {
                if a >= n {
                    return false;
                }
            }
        }
    }
    true
}
fn histories(n: usize) -> Vec<Vec<Word>> {
    let al = alphabet();
    let mut v: Vec<Vec<Word>> = vec![vec![]];
    for _ in 0..n {
        let mut w = vec![];
        for h in v {
            for o in &al {
                let mut x = h.clone();
                x.push(*o);
                if valid(&x) {
                    w.push(x);
                }
            }
        }
        v = w;
    }
    v
}
fn merges(n: usize, m: usize) -> Vec<u32> {
    (0u32..1 << (n + m)).filter(|x| x.count_ones() as usize == m).collect()
}
fn end_view(w: &mut World) -> Vec<u64> {
    let gs = [gi(&[A]), gi(&[H]), gi(&[W])];
    let mut v = w.snapshot(1 << A | 1 << H | 1 << W, &gs, true);
    v.push(w.dead as u64);
    v
}
fn alone(h: &[Word]) -> Vec<Vec<u64>> {
    let mut w = World::new();
    let mut r = vec![];
    for o in h {
        w.apply(*o);
        r.push(w.last.clone());
    }
    r.push(end_view(&mut w));
    r
}
/// Runs the two histories in the given order on two registries.
fn merged(ha: &[Word], hb: &[Word], order: u32) -> [Vec<Vec<u64>>; 2] {
    let mut ws = [World::new(), World::new()];
    let hs = [ha, hb];
    let mut i = [0, 0];
    let mut r: [Vec<Vec<u64>>; 2] = [vec![], vec![]];
    for j in 0..ha.len() + hb.len() {
        let x = (order >> j & 1) as usize;
        ws[x].apply(hs[x][i[x]]);
        i[x] += 1;
        r[x].push(ws[x].last.clone());
    }
    for x in 0..2 {
        r[x].push(end_view(&mut ws[x]));
    }
    r
}

fn explore(cx: &Cx) {
    let (na, nb) = if cx.thorough() { (4, 3) } else { (3, 3) };
    let (ha, hb) = (histories(na), histories(nb));
    let ms = merges(na, nb);
    let ra: Vec<_> = ha.iter().map(|h| alone(h)).collect();
    let rb: Vec<_> = hb.iter().map(|h| alone(h)).collect();
    // one case per pair; the replay of a failing pair names the order
    cx.par(ha.len(), |i| {
        for (j, b) in hb.iter().enumerate() {
            if cx.stop.load(std::sync::atomic::Ordering::Relaxed) {
                return;
            }
            let mut w = vec![CODE, na as u64];
            w.extend_from_slice(&ha[i]);
            w.extend_from_slice(b);
            cx.case(&w, || {
                for m in &ms {
                    let [x, y] = merged(&ha[i], b, *m);
                    if x != ra[i] || y != rb[j] {
                        return vec![Fail { props: p(27), msg: format!("interleaved in the order {m:b} the registries behave differently than alone") }];
                    }
                }
                vec![]
            });
        }
        if i % 37 == 3 {
            let mut w = vec![CODE, na as u64];
            w.extend_from_slice(&ha[i]);
            w.extend_from_slice(&hb[i % hb.len()]);
            cx.sample(&w);
        }
    });
    cx.count("interleavings of two histories", (ha.len() * hb.len() * ms.len()) as u64);
    cx.states((ha.len() * hb.len()) as u64);
    cx.transitions((ha.len() * hb.len() * ms.len() * (na + nb)) as u64);
    cx.note(format!("{} histories of {na} operations x {} of {nb} on two registries, all {} interleavings of each pair", ha.len(), hb.len(), ms.len()));
}
fn run(_: Tier, w: &[Word]) -> Vec<Fail> {
    let na = w[1] as usize;
    let (ha, hb) = (&w[2..2 + na], &w[2 + na..]);
    let (ra, rb) = (alone(ha), alone(hb));
    for m in merges(ha.len(), hb.len()) {
        let [x, y] = merged(ha, hb, m);
        if x != ra || y != rb {
            return vec![Fail { props: p(27), msg: format!("interleaved in the order {m:b} (lowest bit first; 1 = second registry) the registries behave differently than alone") }];
        }
    }
    vec![]
}
fn show(_: Tier, w: &[Word]) -> String {
    let na = w[1] as usize;
    format!("first registry: {}  |  second registry: {}", show_ops(&w[2..2 + na]), show_ops(&w[2 + na..]))
}
