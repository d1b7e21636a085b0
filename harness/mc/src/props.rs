//! The scenarios explored for each property.
use crate::core::*;
use crate::hist::*;
use crate::tables::*;
use crate::world::*;

pub struct Prop {
    pub id: u32,
    pub hang_s: u64,
    pub engs: Vec<Eng>,
}

pub const A: u8 = 0;
pub const Z: u8 = 1;
pub const W: u8 = 2;
pub const H: u8 = 3;
pub const B: u8 = 4;
pub const T: u8 = 5;
pub const P: u8 = 6;
pub const Q: u8 = 7;
pub const L: u8 = 8;
pub const G: u8 = 9;
pub const V: u8 = 10;
pub const N: u8 = 11;
pub const S: u8 = 12;
pub const D: u8 = 13;
pub const E: u8 = 14;
pub const X: u8 = 15;
pub const Y: u8 = 16;

pub fn scn(name: &'static str, base: Vec<Word>, kinds: &[u8], o: Obs) -> Scn {
    Scn {
        name,
        base,
        creates: vec![],
        removes: vec![],
        kinds: kinds.to_vec(),
        max_live: 3,
        destroy: true,
        addrem: true,
        sets: false,
        setgs: vec![],
        itersets: vec![],
        obs: o,
        always: 0,
        stateless: 0,
        depth: 0,
        max_states: usize::MAX,
        finish: false,
        custom: None,
        differential: false,
        watch: false,
        reads: false,
    }
}
fn bulk(g: usize, n: u64) -> Word {
    op(BULK, g as u64, n)
}
fn cycle(g: usize, n: u64) -> Word {
    op(CYCLE, g as u64, n)
}

/// Initial states at which something changes: growth of storage, version wrap-around, free lists, many sets.
pub fn bases(thorough: bool) -> Vec<(&'static str, Vec<Word>)> {
    let a = gi(&[A]);
    let ah = gi(&[H, A]);
    let mut v: Vec<(&'static str, Vec<Word>)> = vec![
        ("127 rows", vec![bulk(ah, 127)]),
        ("128 rows", vec![bulk(ah, 128)]),
        ("255 rows", vec![bulk(ah, 255)]),
        ("versions 254", vec![cycle(a, 254)]),
        ("versions 255", vec![cycle(ah, 255)]),
        ("versions wrapped", vec![cycle(a, 256), op(CREATE, ah as u64, 0)]),
        ("free list of 5", vec![bulk(a, 9), op(DESTROY_NTH, 2, 5)]),
        ("two full sets", vec![bulk(ah, 128), bulk(gi(&[A, W]), 128)]),
        ("40 sets", vec![op(SETS, 1, 40)]),
        ("rows of five sets", vec![bulk(gi(&[A]), 3), bulk(gi(&[A, W]), 3), bulk(gi(&[W, H, A]), 2), bulk(gi(&[A, Z, W, H]), 2), bulk(gi(&[H]), 2)]),
    ];
    v.extend([
        ("256 rows", vec![bulk(ah, 256)]),
        ("free list of 300", vec![bulk(a, 600), op(DESTROY_NTH, 2, 300)]),
        ("300 sets", vec![op(SETS, 1, 300)]),
        ("300 sets of four", vec![op(LEVEL, 4, 300)]),
        ("all moved", vec![bulk(ah, 130), op(ADD_ALL, 0, W as u64), op(REM_ALL, 0, H as u64)]),
    ]);
    if thorough {
        v.extend([
            ("126 rows", vec![bulk(ah, 126)]),
            ("129 rows", vec![bulk(ah, 129)]),
            ("257 rows", vec![bulk(ah, 257)]),
            ("511 rows", vec![bulk(ah, 511)]),
            ("versions 253", vec![cycle(ah, 253)]),
            ("versions wrapped twice", vec![cycle(a, 513)]),
        ]);
    }
    v
}
pub fn huge_bases(thorough: bool) -> Vec<(&'static str, Vec<Word>)> {
    if !thorough {
        return vec![("65,540 rows, two sets", vec![bulk(gi(&[A, Z]), 65540), bulk(gi(&[A]), 3)])];
    }
    vec![
        ("65,540 rows, two sets", vec![bulk(gi(&[A, Z]), 65540), bulk(gi(&[A]), 3)]),
        ("65,535 rows", vec![bulk(gi(&[A, Z]), 65535)]),
        ("65,536 rows", vec![bulk(gi(&[A, Z]), 65536)]),
        ("70,000 entities in two sets, every third gone", vec![bulk(gi(&[A]), 40000), bulk(gi(&[A, Z]), 30000), op(DESTROY_NTH, 3, 30000)]),
    ]
}

/// The scenarios of the history-based part of property `id`.
pub fn scenarios(id: u32, tier: Tier) -> Vec<Scn> {
    let th = tier == Tier::Thorough;
    let q = |a: usize, b: usize| if th { b } else { a };
    let mut v: Vec<Scn> = vec![];
    // a scenario template with two kinds and one with four
    let two = |o: Obs| {
        let mut s = scn("two kinds", vec![], &[A, H], o);
        s.creates = vec![gi(&[A]), gi(&[H, A])];
        s.removes = vec![gi(&[A]), gi(&[A, H])];
        s
    };
    let four = |o: Obs| {
        let mut s = scn("four kinds", vec![], &[A, Z, W, H], o);
        s.creates = vec![gi(&[A]), gi(&[W, A]), gi(&[Z, H]), gi(&[H, W, Z, A])];
        s.removes = vec![gi(&[A]), gi(&[A, W]), gi(&[Z, H]), gi(&[Z, A, H, W])];
        s
    };
    let sets2 = vec![gi(&[A]), gi(&[H]), gi(&[A, H])];
    let with_bases = |v: &mut Vec<Scn>, t: &Scn, d: usize| {
        for (n, b) in bases(th) {
            let mut s = t.clone();
            s.name = n;
            s.base = b;
            s.max_live = usize::MAX;
            s.stateless = 0;
            s.depth = if n.starts_with("300 sets") && d > 1 { d - 1 } else { d };
            s.max_states = usize::MAX;
            v.push(s);
        }
    };
    let with_huge = |v: &mut Vec<Scn>, t: &Scn, d: usize| {
        for (n, b) in huge_bases(th) {
            let mut s = t.clone();
            s.name = n;
            s.base = b;
            s.max_live = usize::MAX;
            s.stateless = 0;
            s.depth = d;
            s.obs.dead = false;
            v.push(s);
        }
    };
    // live entities of every version
    let with_ramp = |v: &mut Vec<Scn>, t: &Scn, d: usize| {
        let mut s = t.clone();
        s.name = "all versions";
        s.base = vec![op(RAMP, gi(&[A]) as u64, 257)];
        s.max_live = usize::MAX;
        s.stateless = 0;
        s.depth = d;
        s.max_states = usize::MAX;
        v.push(s);
    };
    // components of extreme, of page and of odd sizes
    let with_sizes = |v: &mut Vec<Scn>, modes: u16, live: bool| {
        let mut o = obs(&[A, Z, X, Y, N, B], vec![gi(&[X]), gi(&[Y]), gi(&[X, Y]), gi(&[Y, A, X]), gi(&[N, X])]);
        o.ents = true;
        o.live = live;
        o.modes = modes;
        o.preds = vec![PRED_TRUE, pred_lacks(X)];
        let mut s = scn("largest size and alignment", vec![], &[X, Y, A], o);
        s.creates = vec![gi(&[X]), gi(&[Y, A, X]), gi(&[N, X])];
        s.removes = vec![gi(&[X]), gi(&[X, Y]), gi(&[N, X])];
        s.finish = true;
        s.stateless = 1;
        s.depth = q(3, 4);
        s.max_states = q(3_000, 100_000);
        v.push(s);
        let mut o = obs(&[L, G, S, D, Q, E], vec![gi(&[L]), gi(&[G]), gi(&[S]), gi(&[D]), gi(&[Q]), gi(&[E])]);
        o.ents = true;
        o.live = live;
        o.modes = modes;
        o.preds = vec![PRED_TRUE, pred_lacks(L)];
        let mut s = scn("page sized and odd sized", vec![], &[L, G, S, D, Q, E], o);
        s.creates = vec![gi(&[L]), gi(&[G]), gi(&[S])];
        s.removes = vec![gi(&[L]), gi(&[G])];
        s.finish = true;
        s.depth = q(4, 5);
        s.max_states = q(10_000, 200_000);
        v.push(s);
        for (n, g, k, d) in [("128 rows of 65,535 bytes", gi(&[X, B]), X, 1), ("128 rows of 1,001 bytes", gi(&[L]), L, 2), ("128 rows aligned to 32,768", gi(&[B, Y]), Y, 1)] {
            let mut o = obs(&[B, k], vec![gi(&[B]), gi(&[k])]);
            o.ents = true;
            o.live = live;
            o.modes = modes;
            o.preds = vec![PRED_TRUE];
            let mut s = scn(n, vec![bulk(g, 128)], &[B, k], o);
            s.creates = vec![g];
            s.removes = vec![g];
            s.max_live = usize::MAX;
            s.finish = true;
            s.depth = d;
            v.push(s);
        }
    };
    match id {
        3 => with_sizes(&mut v, M4, false),
        5 => with_sizes(&mut v, 0x404, true),
        6 => with_sizes(&mut v, 0, false),
        7 => with_sizes(&mut v, M4, false),
        8 => with_sizes(&mut v, X4, false),
        9 => with_sizes(&mut v, F4, false),
        _ => {}
    }
    match id {
        1 => {
            let mut o = obs(&[A, H], vec![]);
            o.live = true;
            o.styles = true;
            let mut s = two(o.clone());
            s.stateless = q(5, 6);
            s.depth = q(9, 14);
            s.max_live = q(3, 4);
            s.max_states = q(150_000, 3_000_000);
            v.push(s.clone());
            let mut f = four(o);
            f.stateless = q(3, 3);
            f.depth = q(5, 7);
            f.max_states = q(150_000, 2_000_000);
            v.push(f);
            with_bases(&mut v, &s, q(3, 4));
            with_huge(&mut v, &s, 1);
            with_ramp(&mut v, &s, q(1, 2));
        }
        2 => {
            let mut o = obs(&[A, H], vec![gi(&[A]), gi(&[H, A])]);
            o.dead = true;
            o.dead_groups = vec![gi(&[A]), gi(&[A, H])];
            let mut s = two(o);
            s.stateless = q(4, 5);
            s.depth = q(8, 11);
            s.max_states = q(40_000, 1_000_000);
            v.push(s.clone());
            let mut f = s.clone();
            f.name = "three kinds";
            f.kinds = vec![A, H, W];
            f.creates = vec![gi(&[A]), gi(&[H, A]), gi(&[W, H, A])];
            f.stateless = q(2, 3);
            f.depth = q(5, 7);
            v.push(f);
            with_bases(&mut v, &s, q(2, 3));
            with_ramp(&mut v, &s, q(1, 2));
            let mut h = s.clone();
            h.name = "65,540 entities, 60 of them gone";
            h.base = vec![bulk(gi(&[A]), 65540), op(DESTROY_NTH, 1000, 60)];
            h.max_live = usize::MAX;
            h.stateless = 0;
            h.depth = 1;
            v.push(h);
        }
        3 => {
            let mut o = obs(&[A, Z, W, H], pal1_sets());
            o.ents = true;
            o.modes = M4;
            let mut s = four(o.clone());
            s.sets = true;
            s.setgs = vec![gi(&[W, A])];
            s.itersets = vec![(gi(&[A]), 1), (gi(&[H, A]), 3), (gi(&[A]), 9)];
            s.stateless = q(2, 3);
            s.depth = q(4, 5);
            s.max_states = q(30_000, 1_000_000);
            v.push(s.clone());
            let mut o2 = obs(&[B, T, P, V], pal2_sets());
            o2.ents = true;
            o2.modes = M4;
            let mut s2 = scn("second palette", vec![], &[B, T, P, V], o2);
            s2.creates = vec![gi(&[B]), gi(&[T, P]), gi(&[V, P, T, B])];
            s2.removes = vec![gi(&[P, B]), gi(&[V, T])];
            s2.sets = true;
            s2.setgs = vec![gi(&[P, V])];
            s2.itersets = vec![(gi(&[P]), 3)];
            s2.stateless = q(2, 3);
            s2.depth = q(3, 5);
            s2.max_states = q(30_000, 1_000_000);
            v.push(s2);
            let mut sb = two(o);
            sb.sets = true;
            sb.itersets = vec![(gi(&[H]), 3)];
            with_bases(&mut v, &sb, q(3, 4));
            sb.obs.groups = sets2;
            with_huge(&mut v, &sb, 1);
            with_ramp(&mut v, &sb, q(1, 2));
        }
        4 => {
            let mut o = obs(&[A, Z, W, H, E], pal1_sets());
            o.ents = true;
            let mut s = four(o.clone());
            s.stateless = q(2, 3);
            s.depth = q(5, 7);
            s.max_states = q(40_000, 2_000_000);
            v.push(s.clone());
            let mut sb = two(o.clone());
            sb.kinds = vec![A, H, W];
            with_bases(&mut v, &sb, q(3, 4));
            with_ramp(&mut v, &sb, q(1, 2));
            sb.obs.groups = vec![gi(&[A]), gi(&[Z]), gi(&[A, H])];
            with_huge(&mut v, &sb, 1);
            // near the component limit
            let mut o = obs(&(0..15).collect::<Vec<u8>>(), vec![gi(&[A]), gi(&[D]), gi(&[A, Z, W, H, B]), gi(&[D, S, N, V, G, L, Q, P, T, B, H, W, Z, A])]);
            o.ents = true;
            let mut s = scn("13 and 14 components", vec![op(CREATE, gi(&[A, Z, W, H, B, T, P, Q, L, G, V, N, S]) as u64, 0)], &(0..15).collect::<Vec<u8>>(), o);
            s.creates = vec![gi(&[D, S, N, V, G, L, Q, P, T, B, H, W, Z, A])];
            s.max_live = 2;
            s.depth = q(2, 3);
            v.push(s);
        }
        5 => {
            let mut o = obs(&[A, Z, W, H], vec![gi(&[A]), gi(&[A, W]), gi(&[Z, H]), gi(&[A, Z, W, H])]);
            o.live = true;
            o.ents = true;
            o.modes = 0x404;
            let mut s = four(o.clone());
            s.removes = tables().pal1.clone().chain(tables().bad.clone().filter(|g| tables().g[*g].ks.len() <= 4)).collect();
            s.stateless = q(1, 2);
            s.depth = q(3, 4);
            s.max_states = q(20_000, 500_000);
            s.finish = true;
            v.push(s.clone());
            let mut f = four(o.clone());
            f.name = "deeper, fewer groups";
            f.removes = vec![gi(&[A]), gi(&[W]), gi(&[A, W]), gi(&[W, A]), gi(&[H, Z]), gi(&[A, H]), gi(&[W, H, A]), gi(&[H, A, Z, W])];
            f.stateless = q(3, 3);
            f.depth = q(5, 7);
            f.max_states = q(30_000, 1_000_000);
            f.finish = true;
            v.push(f);
            let mut sb = two(o);
            sb.removes = vec![gi(&[A]), gi(&[H]), gi(&[A, H]), gi(&[H, A]), gi(&[A, W]), gi(&[W, H, A])];
            sb.finish = true;
            with_bases(&mut v, &sb, q(3, 4));
            sb.obs.ents = false;
            sb.obs.groups = vec![gi(&[A]), gi(&[A, Z])];
            sb.removes = vec![gi(&[A]), gi(&[Z]), gi(&[A, Z]), gi(&[Z, A])];
            with_huge(&mut v, &sb, 1);
            // wide groups
            let wide: Vec<usize> = tables().wide.clone().filter(|g| tables().g[*g].ks.len() >= 5).collect();
            for (n, g) in [("14 components", gi(&[A, Z, W, H, B, T, P, Q, L, G, V, N, S, D])), ("13 components", gi(&[A, Z, W, H, B, T, P, Q, L, G, V, N, S])), ("5 components", gi(&[A, Z, W, H, B]))] {
                let mut o = obs(&[A, D, S], vec![]);
                o.live = true;
                o.ents = true;
                let mut s = scn(n, vec![op(CREATE, g as u64, 0), op(CREATE, g as u64, 0)], &[D, A], o);
                s.removes = wide.clone();
                s.depth = q(2, 3);
                s.max_live = 3;
                s.finish = true;
                v.push(s);
            }
        }
        6 => {
            let o = obs(&[], vec![]);
            let mut s = four(o.clone());
            s.sets = true;
            s.setgs = vec![gi(&[H, A])];
            s.finish = true;
            s.stateless = q(3, 4);
            s.depth = q(5, 7);
            s.max_states = q(40_000, 2_000_000);
            v.push(s);
            let mut s2 = scn("second palette", vec![], &[B, T, P, V, H], o.clone());
            s2.creates = vec![gi(&[T]), gi(&[V, T]), gi(&[V, P, T, B])];
            s2.removes = vec![gi(&[T]), gi(&[V]), gi(&[V, T])];
            s2.finish = true;
            s2.stateless = q(2, 3);
            s2.depth = q(4, 6);
            s2.max_states = q(30_000, 1_000_000);
            v.push(s2);
            let mut sb = two(o);
            sb.kinds = vec![A, H, Z];
            sb.finish = true;
            with_bases(&mut v, &sb, q(3, 4));
            with_huge(&mut v, &sb, 1);
        }
        7 | 8 | 9 => {
            let mut o = obs(&[A, Z, W, H], pal1_sets());
            o.modes = if id == 7 { M4 } else if id == 8 { X4 } else { F4 };
            if id == 9 {
                o.preds = vec![PRED_TRUE, PRED_FALSE, pred_has(A), pred_lacks(A), pred_lacks(W), pred_has(H), pred_len(2), pred_table(A, 0b0110_1001_1001_0110)];
                o.groups = vec![gi(&[A]), gi(&[H]), gi(&[W, A]), gi(&[Z]), gi(&[H, A, W])];
            }
            let mut s = four(o.clone());
            s.stateless = q(2, 3);
            s.depth = q(5, 7);
            s.max_states = q(30_000, 1_500_000);
            v.push(s);
            if id != 8 {
                let mut s = four(o.clone());
                s.name = "other ways to consume iterations";
                s.obs.styles = true;
                s.obs.groups = vec![gi(&[A]), gi(&[H, A]), gi(&[W, Z])];
                s.depth = q(4, 5);
                s.max_states = q(5_000, 200_000);
                v.push(s);
            }
            let mut s2 = scn("all orderings", vec![op(CREATE, gi(&[A, Z, W, H]) as u64, 0), op(CREATE, gi(&[A]) as u64, 0)], &[A, Z, W, H], o.clone());
            s2.obs.groups = tables().pal1.clone().collect();
            s2.creates = vec![gi(&[W, H, Z])];
            s2.depth = q(2, 3);
            s2.max_live = 4;
            if id == 9 {
                s2.obs.preds = vec![PRED_TRUE, pred_lacks(H)];
            }
            v.push(s2);
            let mut o2 = obs(&[B, T, P, V], pal2_sets());
            o2.modes = o.modes;
            o2.preds = vec![PRED_TRUE, pred_has(T), pred_lacks(V), pred_table(B, 0x3C96)];
            let mut s3 = scn("second palette", vec![], &[B, T, P, V], o2);
            s3.creates = vec![gi(&[B]), gi(&[T, P]), gi(&[V, P, T, B])];
            s3.stateless = q(2, 3);
            s3.depth = q(3, 5);
            s3.max_states = q(30_000, 1_000_000);
            v.push(s3);
            let mut sb = two(o.clone());
            sb.obs.styles = id != 8;
            sb.kinds = vec![A, H, W];
            with_bases(&mut v, &sb, if id == 9 { q(2, 3) } else { q(3, 4) });
            sb.obs.groups = sets2;
            if id == 9 {
                sb.obs.preds = vec![PRED_TRUE, pred_lacks(Z)];
            }
            with_huge(&mut v, &sb, 1);
            // wide groups
            let wide: Vec<usize> = tables().wide.clone().collect();
            let full = gi(&[A, Z, W, H, B, T, P, Q, L, G, V, N, S, D]);
            let mut o = obs(&[], wide);
            o.modes = if id == 7 { M4 } else if id == 8 { X4 } else { F4 };
            o.preds = vec![PRED_TRUE, pred_lacks(A), pred_len(13)];
            let mut s = scn("wide sets", vec![op(CREATE, full as u64, 0), op(CREATE, gi(&[A, Z, W, H, B]) as u64, 0), op(CREATE, full as u64, 0)], &[A, Z, D, G, V], o);
            s.max_live = 4;
            s.creates = vec![gi(&[A, Z, W, H, B, T, P, Q, L])];
            s.depth = q(2, 3);
            v.push(s);
        }
        10 => {
            // histories that mix all orderings of one set of three
            let t = tables();
            let m3 = t.g[gi(&[A, W, H])].mask;
            let orders: Vec<usize> = t.pal1.clone().filter(|g| t.g[*g].mask == m3).collect();
            let mut o = obs(&[A, W, H], orders.clone());
            o.ents = true;
            o.modes = 0xF | 0xF00;
            let mut s = scn("all orderings of three", vec![], &[A, W, H], o);
            s.creates = orders.clone();
            s.removes = orders.clone();
            s.setgs = orders.clone();
            s.itersets = orders.iter().map(|g| (*g, 3)).collect();
            s.addrem = false;
            s.max_live = q(3, 3);
            s.depth = q(4, 5);
            s.stateless = q(2, 3);
            s.max_states = q(20_000, 200_000);
            s.differential = true;
            s.finish = true;
            v.push(s.clone());
            // reached by single components, and in storage that has grown, wrapped or been emptied
            s.name = "all orderings of three, single components";
            s.addrem = true;
            s.creates = vec![orders[1], orders[3], gi(&[A])];
            s.setgs = vec![orders[4]];
            s.itersets = vec![(orders[5], 3), (orders[3], 9)];
            s.kinds = vec![A, W, H];
            s.obs.kinds = s.kinds.iter().fold(0, |m, k| m | 1 << k);
            s.max_live = 3;
            s.depth = q(5, 6);
            v.push(s.clone());
            let mut sb = s.clone();
            sb.creates = orders.clone();
            sb.removes = orders.clone();
            sb.kinds = vec![H, W];
            for n in [127u64, 128, 255, 256] {
                for o in [orders[2], orders[4]] {
                    let mut b = sb.clone();
                    b.name = "all orderings of three, many rows";
                    b.base = vec![bulk(o, n)];
                    b.max_live = usize::MAX;
                    b.stateless = 0;
                    b.depth = q(2, 3);
                    v.push(b);
                }
            }
            let m4 = t.g[gi(&[A, Z, W, H])].mask;
            let orders: Vec<usize> = t.pal1.clone().filter(|g| t.g[*g].mask == m4).collect();
            let mut o = obs(&[A, Z, W, H], orders.clone());
            o.ents = true;
            o.modes = 0xF | 0xF00;
            let mut s = scn("all orderings of four", vec![op(CREATE, gi(&[A, W]) as u64, 0)], &[Z, H], o);
            s.creates = orders.clone();
            s.removes = orders;
            s.max_live = 3;
            s.depth = q(3, 4);
            s.max_states = q(20_000, 200_000);
            s.differential = true;
            v.push(s);
            let mut o = obs(&[B, T, P, V], pal2_sets());
            o.ents = true;
            o.modes = 0xF | 0xF00;
            let mut s = scn("second palette", vec![], &[B, T, P, V], o);
            s.creates = pal2_sets().into_iter().filter(|g| t.g[*g].ks.len() > 1).collect();
            s.removes = s.creates.clone();
            s.max_live = 2;
            s.depth = q(3, 4);
            s.max_states = q(10_000, 200_000);
            s.differential = true;
            s.finish = true;
            v.push(s);
            let t5: Vec<usize> = t.wide.clone().filter(|g| t.g[*g].ks.len() >= 5).collect();
            let mut o = obs(&[A, D], t5.clone());
            o.ents = true;
            o.modes = 0x404;
            let mut s = scn("wide orderings", vec![], &[], o);
            s.creates = t5.clone();
            s.removes = t5;
            s.max_live = 3;
            s.addrem = false;
            s.depth = q(3, 3);
            s.max_states = q(3_000, 100_000);
            s.differential = true;
            v.push(s);
        }
        11 => {
            let mut o = obs(&[A, Z, W, H], vec![gi(&[A]), gi(&[Z]), gi(&[W]), gi(&[H]), gi(&[W, A])]);
            o.live = true;
            let mut s = four(o.clone());
            s.removes = vec![gi(&[A]), gi(&[W, A]), gi(&[H, Z]), gi(&[H]), gi(&[A, H, W]), gi(&[W, Z, H, A])];
            s.removes.extend(tables().bad.clone().take(8));
            s.custom = Some(crate::eng_diff::p11);
            s.stateless = q(1, 2);
            s.depth = q(4, 5);
            s.max_states = q(6_000, 200_000);
            v.push(s.clone());
            let mut sb = two(o.clone());
            sb.kinds = vec![A, H, W];
            sb.removes = vec![gi(&[A]), gi(&[H]), gi(&[H, A]), gi(&[W, A])];
            sb.removes.extend(tables().bad.clone().take(4));
            sb.custom = s.custom;
            with_bases(&mut v, &sb, q(2, 3));
            sb.obs.groups = vec![gi(&[A]), gi(&[A, Z])];
            with_huge(&mut v, &sb, q(0, 1));
            for b in v.iter_mut().skip(1) {
                b.max_states = q(3_000, 100_000);
            }
            // at the component limit
            let all: Vec<u8> = (0..15).collect();
            let mut o = obs(&all, vec![gi(&[A]), gi(&[D]), gi(&[A, Z, W, H, B])]);
            o.live = true;
            let full = gi(&[D, S, N, V, G, L, Q, P, T, B, H, W, Z, A]);
            let mut s = scn("13 and 14 components", vec![op(CREATE, gi(&[A, Z, W, H, B, T, P, Q, L, G, V, N, S]) as u64, 0), op(CREATE, full as u64, 0)], &all, o);
            s.creates = vec![full];
            s.removes = vec![gi(&[A]), gi(&[A, Z, W, H, B]), gi(&[A, Z, W, H, B, T, P, Q, L, G, V, N, S])];
            s.removes.extend(tables().bad.clone().filter(|g| tables().g[*g].ks.len() > 4));
            s.custom = Some(crate::eng_diff::p11);
            s.max_live = 3;
            s.depth = q(1, 2);
            v.push(s);
        }
        15 => {
            // Up and down through every count by single components, from and to tuples of every arity.
            let all: Vec<u8> = (0..15).collect();
            let t = tables();
            let wide: Vec<usize> = t.wide.clone().chain(t.pal1.clone()).filter(|g| { let w = t.g[*g].ks; w.len() > 2 && (w[0] == A || w.len() == 14) }).collect();
            let mut o = obs(&all, vec![gi(&[D]), gi(&[A])]);
            o.ents = true;
            o.live = true;
            o.modes = 0x404;
            let mut s = scn("every arity, then single components", vec![], &all, o.clone());
            s.creates = wide.clone();
            s.removes = wide;
            s.max_live = q(1, 2);
            s.depth = q(3, 3);
            s.max_states = q(20_000, 200_000);
            s.finish = true;
            s.always = p(15);
            v.push(s);
            for (n, g) in [("14 components", gi(&[D, S, N, V, G, L, Q, P, T, B, H, W, Z, A])), ("13 components", gi(&[A, Z, W, H, B, T, P, Q, L, G, V, N, S])), ("12 components", gi(&[A, Z, W, H, B, T, P, Q, L, G, V, N]))] {
                let mut s = scn(n, vec![op(CREATE, g as u64, 0)], &all, o.clone());
                s.creates = vec![gi(&[A, Z, W, H, B, T, P, Q, L, G, V, N, S, D])];
                s.max_live = 2;
                s.depth = q(3, 4);
                s.max_states = q(20_000, 100_000);
                s.finish = true;
            s.always = p(15);
                v.push(s);
            }
        }
        18 => {
            let mut o = obs(&[A, Z, X, Y, N, B], vec![gi(&[X]), gi(&[Y]), gi(&[X, Y]), gi(&[Z, N]), gi(&[Y, A, X]), gi(&[B]), gi(&[N, X])]);
            o.ents = true;
            o.modes = 0xFFF;
            o.preds = vec![PRED_TRUE];
            let mut s = scn("largest size and alignment", vec![], &[X, Y, A, Z], o.clone());
            s.creates = vec![gi(&[X]), gi(&[Y, A, X]), gi(&[N, X])];
            s.removes = vec![gi(&[X]), gi(&[X, Y]), gi(&[N, X])];
            s.sets = true;
            s.itersets = vec![(gi(&[X, Y]), 3)];
            s.finish = true;
            s.max_live = 2;
            s.stateless = q(1, 2);
            s.depth = q(3, 4);
            s.max_states = q(3_000, 100_000);
            v.push(s);
            let mut oz = obs(&[Z, N, B], vec![gi(&[Z]), gi(&[N]), gi(&[Z, N]), gi(&[N, Z, B]), gi(&[B])]);
            oz.ents = true;
            oz.modes = 0xFFF;
            oz.preds = vec![PRED_TRUE];
            let mut s = scn("zero sizes", vec![], &[Z, N, B], oz.clone());
            s.creates = vec![gi(&[Z]), gi(&[Z, N]), gi(&[N, Z, B]), gi(&[B])];
            s.removes = vec![gi(&[Z]), gi(&[Z, N]), gi(&[N, Z, B])];
            s.sets = true;
            s.itersets = vec![(gi(&[Z, N]), 3)];
            s.finish = true;
            s.stateless = q(2, 3);
            s.depth = q(5, 7);
            s.max_states = q(30_000, 500_000);
            v.push(s.clone());
            for (n, g, k) in [("zero sizes, 127 rows", gi(&[Z, N]), 127), ("zero sizes, 255 rows", gi(&[N, Z, B]), 255), ("one zero-sized component, 128 rows", gi(&[Z]), 128)] {
                let mut b = s.clone();
                b.name = n;
                b.base = vec![bulk(g, k)];
                b.max_live = usize::MAX;
                b.stateless = 0;
                b.depth = q(2, 4);
                v.push(b);
            }
            let mut o4 = obs(&[A, Z, W, H], pal1_sets());
            o4.ents = true;
            o4.modes = 0xF0F;
            let mut f = four(o4);
            f.sets = true;
            f.finish = true;
            f.stateless = q(2, 3);
            f.depth = q(4, 6);
            f.max_states = q(20_000, 500_000);
            v.push(f);
            let mut o2 = obs(&[B, T, P, V], pal2_sets());
            o2.ents = true;
            o2.modes = 0xF0F;
            let mut s2 = scn("second palette", vec![], &[B, T, P, V], o2);
            s2.creates = vec![gi(&[B]), gi(&[T, P]), gi(&[V, P, T, B])];
            s2.removes = vec![gi(&[T]), gi(&[V, T])];
            s2.finish = true;
            s2.stateless = q(2, 3);
            s2.depth = q(3, 5);
            v.push(s2);
            let mut op = obs(&[L, G, S, D, Q, E], vec![gi(&[L]), gi(&[G]), gi(&[S]), gi(&[D]), gi(&[Q]), gi(&[E])]);
            op.ents = true;
            op.modes = 0xF0F;
            let mut s3 = scn("page sized and odd sized", vec![], &[L, G, S, D, Q, E], op);
            s3.creates = vec![gi(&[L]), gi(&[G]), gi(&[S])];
            s3.removes = vec![gi(&[L])];
            s3.finish = true;
            s3.max_live = 2;
            s3.depth = q(4, 5);
            s3.max_states = q(10_000, 200_000);
            v.push(s3);
            let mut ob = obs(&[A, H, Z], vec![gi(&[A]), gi(&[H]), gi(&[A, H])]);
            ob.ents = true;
            ob.modes = 0xF0F;
            let mut sb = two(ob);
            sb.kinds = vec![A, H, Z];
            sb.finish = true;
            with_bases(&mut v, &sb, q(2, 3));
            sb.obs.ents = false;
            with_huge(&mut v, &sb, 1);
            // growth of large blocks
            for (n, g, c) in [("128 rows of 65,535 bytes", gi(&[X, B]), 128), ("128 rows aligned to 32,768", gi(&[B, Y]), 128), ("128 rows of pages", gi(&[G]), 128)] {
                let mut og = obs(&[X, Y, B, G], vec![gi(&[B])]);
                og.ents = true;
                og.modes = 0x404;
                let mut s = scn(n, vec![bulk(g, c)], &[], og);
                s.creates = vec![g];
                s.addrem = false;
                s.finish = true;
                s.max_live = usize::MAX;
                s.depth = q(1, 2);
                v.push(s);
            }
        }
        19 | 20 => {
            let custom: Option<fn(&Scn, &[Word], &mut World)> = Some(if id == 19 { crate::faults::p19 } else { crate::faults::p20 });
            let mut o = obs(&[A, Z, W, H], vec![gi(&[A]), gi(&[H]), gi(&[W, A]), gi(&[Z])]);
            o.ents = true;
            o.live = true;
            o.modes = 0x404;
            let mut f = four(o.clone());
            f.custom = custom;
            f.stateless = 1;
            f.depth = if id == 19 { q(4, 5) } else { q(3, 4) };
            f.max_states = q(20_000, 200_000);
            v.push(f);
            let mut s = two(o.clone());
            s.custom = custom;
            s.stateless = q(2, 3);
            s.depth = q(4, 6);
            s.max_states = q(10_000, 100_000);
            v.push(s.clone());
            s.kinds = vec![A, H, W];
            s.obs.groups = vec![gi(&[A]), gi(&[H])];
            // (iteration compares all values, too)
            s.obs.ents = false;
            let n0 = v.len();
            with_bases(&mut v, &s, q(1, 2));
            if !th {
                for b in v[n0..].iter_mut() {
                    if !b.base.iter().any(|o| dec(*o).0 == CYCLE) {
                        b.depth = 0;
                    }
                }
            }
            // storage that is about to grow
            for (n, b) in [
                ("two sets with room for one more", vec![bulk(gi(&[A]), 127), bulk(gi(&[H, A]), 127)]),
                ("all of three sets full", vec![bulk(gi(&[A]), 128), bulk(gi(&[H, A]), 128), bulk(gi(&[H]), 128)]),
                ("second growth", vec![bulk(gi(&[A]), 256), bulk(gi(&[H, A]), 255)]),
            ] {
                let mut b2 = s.clone();
                b2.name = n;
                b2.base = b;
                b2.kinds = vec![A, H];
                b2.max_live = usize::MAX;
                b2.stateless = 0;
                b2.depth = q(0, 1);
                v.push(b2);
            }
            // many components at once
            let all: Vec<u8> = vec![A, Z, W, H, T, L, D];
            let mut o = obs(&all, vec![gi(&[A]), gi(&[D])]);
            o.ents = true;
            o.live = true;
            o.modes = 0x404;
            let full = gi(&[D, S, N, V, G, L, Q, P, T, B, H, W, Z, A]);
            let mut s = scn("13 and 14 components", vec![op(CREATE, gi(&[A, Z, W, H, B, T, P, Q, L, G, V, N, S]) as u64, 0), op(CREATE, full as u64, 0)], &[A, D, H], o.clone());
            s.creates = vec![full, gi(&[A, Z, W, H, B])];
            s.max_live = 3;
            s.custom = custom;
            s.depth = q(1, 2);
            v.push(s.clone());
            s.name = if th { "128 entities of 14 components" } else { "128 entities of 5 components" };
            s.base = vec![bulk(if th { full } else { gi(&[A, Z, W, H, B]) }, 128)];
            s.obs.ents = th;
            s.kinds = vec![A, D];
            s.creates = vec![gi(&[A, Z, W, H, B])];
            s.max_live = usize::MAX;
            s.depth = q(0, 1);
            v.push(s);
        }
        26 => {
            let bad: Vec<usize> = tables().bad.clone().collect();
            let mut o = obs(&[A, Z, W, H], bad.clone());
            o.ents = true;
            o.live = true;
            o.modes = 0xFFF;
            o.preds = vec![PRED_TRUE, pred_has(A)];
            o.dead = true;
            o.dead_groups = bad.iter().copied().step_by(3).collect();
            let mut s = four(o.clone());
            s.creates.extend(bad.clone());
            s.removes.extend(bad.clone());
            s.setgs = bad.clone();
            s.itersets = bad.iter().flat_map(|g| [1u8, 3, 5, 7, 9, 11].map(|m| (*g, m))).collect();
            s.max_live = 3;
            s.stateless = q(1, 1);
            s.depth = q(3, 4);
            s.max_states = q(1_500, 50_000);
            s.finish = true;
            v.push(s);
            // every well-formed group is accepted, as the first and as a later group of its registry
            let t = tables();
            for (n, base) in [("well-formed, fresh", vec![]), ("well-formed, after others", vec![op(CREATE, gi(&[A, Z, W, H]) as u64, 0), op(CREATE, gi(&[B]) as u64, 0), op(SETS, 1, 60)])] {
                let mut o = obs(&[A, D], vec![gi(&[A])]);
                o.live = true;
                o.ents = true;
                let mut s = scn(n, base, &[], o);
                s.creates = (0..t.g.len()).filter(|g| t.g[*g].wf).collect();
                s.removes = vec![gi(&[A]), gi(&[A, Z, W, H, B, T, P, Q, L, G, V, N, S, D])];
                s.max_live = usize::MAX;
                s.depth = if n.ends_with("fresh") { q(2, 2) } else { 1 };
                s.addrem = false;
                s.max_states = 1_000_000;
                v.push(s);
            }
        }
        27 => {
            let mut o = obs(&[A, Z, W, H], vec![gi(&[A]), gi(&[Z]), gi(&[W]), gi(&[H])]);
            o.live = true;
            let mut s = four(o.clone());
            s.custom = Some(crate::eng_diff::p27);
            s.stateless = q(2, 3);
            s.depth = q(4, 6);
            s.max_states = q(20_000, 500_000);
            v.push(s.clone());
            let mut sb = two(o);
            sb.custom = s.custom;
            with_bases(&mut v, &sb, q(2, 3));
        }
        _ => {}
    }
    if matches!(id, 1..=9 | 11 | 27) {
        // sets of the same and of different sizes whose identifiers are equal
        let (bt, pv, tp, e) = (gi(&[B, T]), gi(&[P, V]), gi(&[T, P]), gi(&[E]));
        let mut o = obs(&[B, T, P, V, E], vec![bt, pv, tp, e, gi(&[B]), gi(&[B, V, P])]);
        let cfg = |o: &mut Obs| {
            o.live = matches!(id, 1 | 2 | 5 | 11 | 27);
            o.ents = !matches!(id, 1 | 2);
            o.dead = id == 2;
            o.modes = match id {
                3 | 7 => M4,
                5 => 0x404,
                8 => X4,
                9 => F4,
                _ => 0,
            };
        };
        cfg(&mut o);
        o.dead_groups = vec![bt, pv];
        o.preds = vec![PRED_TRUE, pred_has(T), pred_table(B, 0x3C96)];
        let mut s = scn("colliding identifiers", vec![], &[B, T, P, V, E], o);
        s.creates = vec![bt, pv, tp, e];
        s.removes = vec![bt, gi(&[P, V]), tp, e, gi(&[V, P, T, B])];
        s.sets = id == 3;
        s.setgs = vec![gi(&[P, V]), bt];
        s.finish = id == 6;
        s.custom = v[0].custom;
        s.max_live = 3;
        s.stateless = q(2, 3);
        s.depth = if s.custom.is_some() { q(2, 4) } else { q(4, 6) };
        s.max_states = q(20_000, 500_000);
        v.push(s);
        if id <= 9 {
            // reading between the changes
            let mut o = obs(&[A, H, W], if matches!(id, 1 | 2) { vec![gi(&[A, H])] } else { vec![gi(&[A]), gi(&[A, H]), gi(&[H])] });
            cfg(&mut o);
            o.dead_groups = vec![gi(&[A])];
            o.preds = vec![PRED_TRUE, pred_lacks(W)];
            let mut s = two(o.clone());
            s.name = "lookups and iterations in between";
            s.reads = true;
            s.sets = true;
            s.finish = id == 6;
            if !matches!(id, 1 | 2) {
                s.obs.modes |= 1;
                s.itersets = vec![(gi(&[A]), 3)];
            }
            s.stateless = 3;
            s.depth = q(4, 6);
            s.max_states = q(60_000, 1_000_000);
            v.push(s);
            let mut s = four(o);
            s.name = "everything observed after every operation";
            s.obs.kinds = 15;
            s.watch = true;
            s.sets = true;
            s.finish = id == 6;
            s.stateless = 2;
            s.depth = q(3, 5);
            s.max_states = q(10_000, 300_000);
            v.push(s);
        }
    }
    v
}

/// An engine other than the registry histories.  `code` is the first word of its cases (>= 1000).
pub struct Eng {
    pub code: u64,
    pub explore: fn(&Cx),
    pub run: fn(Tier, &[Word]) -> Vec<Fail>,
    pub show: fn(Tier, &[Word]) -> String,
}

impl Prop {
    pub fn explore(&self, cx: &Cx) {
        let only = std::env::var("MC_SCN").ok().and_then(|f| f.parse::<u64>().ok());
        for e in &self.engs {
            if only.map_or(true, |f| f == e.code) {
                let t0 = std::time::Instant::now();
                (e.explore)(cx);
                cx.note(format!("engine {}: {:.1} s", e.code, t0.elapsed().as_secs_f64()));
            }
        }
        for (i, s) in scenarios(cx.prop, cx.tier).iter().enumerate() {
            if only.map_or(true, |f| f == i as u64) {
                explore(cx, i as u64, s);
            }
        }
    }
    pub fn run(&self, tier: Tier, w: &[Word]) -> Vec<Fail> {
        if w[0] >= 1000 {
            return self.engs.iter().find(|e| e.code == w[0]).map_or(vec![], |e| (e.run)(tier, w));
        }
        run_path(&scenarios(self.id, tier)[w[0] as usize], &w[1..]).0
    }
    pub fn show(&self, tier: Tier, w: &[Word]) -> String {
        if w[0] >= 1000 {
            return self.engs.iter().find(|e| e.code == w[0]).map_or(String::new(), |e| (e.show)(tier, w));
        }
        let s = scenarios(self.id, tier);
        let mut ops = s[w[0] as usize].base.clone();
        ops.extend_from_slice(&w[1..]);
        format!("[{}] {}", s[w[0] as usize].name, show_ops(&ops))
    }
}

pub fn all() -> Vec<Prop> {
    let mut v: Vec<Prop> = (1..=9)
        .map(|id| Prop {
            id,
            hang_s: if id == 3 { 240 } else { 120 },
            engs: match id {
                3 => crate::eng_huge::engines_reg().into_iter().chain(crate::eng_sets::engines_many()).collect(),
                1 | 4 | 7 | 8 | 9 => crate::eng_sets::engines_many(),
                _ => vec![],
            },
        }).collect();
    let mut e = |id, hang_s, engs| v.push(Prop { id, hang_s, engs });
    e(10, 60, crate::eng_order::engines());
    e(11, 60, vec![]);
    e(12, 120, crate::eng_store::engines().into_iter().chain(crate::eng_clash::engines()).collect());
    e(13, 150, crate::eng_limit::engines());
    e(14, 150, crate::eng_sets::engines().into_iter().chain(crate::eng_sets::engines_many()).collect());
    e(15, 120, crate::eng_count::engines());
    e(16, 120, crate::eng_data::engines16());
    e(17, 60, crate::eng_data::engines17());
    e(21, 60, crate::eng_data::engines21());
    e(18, 120, crate::eng_arch::engines().into_iter().chain(crate::eng_huge::engines()).collect());
    e(22, 60, crate::eng_arch::engines().into_iter().chain(crate::eng_huge::engines()).collect());
    e(19, 150, crate::faults::engines());
    e(20, 150, vec![]);
    e(24, 250, crate::eng_read::engines().into_iter().chain(crate::eng_nested::engines_read()).collect());
    e(23, 120, crate::eng_slots::engines());
    e(26, 60, vec![]);
    e(27, 250, crate::eng_diff::engines().into_iter().chain(crate::eng_nested::engines()).collect());
    v
}
