//! P12 on whole registries: histories over component types whose sets have colliding identifiers, against the same
//! histories over types of the same layout and order whose sets have not. The identifiers must make no difference.
use crate::core::*;
use crate::eng_data::bad;
use crate::props::*;
use mcbase::alloc::lib;
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

const CODE: Word = 1045;
pub fn engines() -> Vec<Eng> {
    vec![Eng { code: CODE, explore, run, show }]
}

pub struct K<const I: u16>(u64);
impl<const I: u16> Component for K<I> {
    const NAME: &'static str = "K";
    const ID: ComponentTypeId = ComponentTypeId::from_u16(I);
}
trait Val: Component {
    fn new(v: u64) -> Self;
    fn get(&self) -> u64;
    fn set(&mut self, v: u64);
}
impl<const I: u16> Val for K<I> {
    fn new(v: u64) -> Self {
        K(v)
    }
    fn get(&self) -> u64 {
        self.0
    }
    fn set(&mut self, v: u64) {
        self.0 = v
    }
}

/// {A,B} and {C,D} have one identifier, {B,C} that of {E}.
const CLASH: [u16; 5] = [9267, 14199, 11551, 12305, 2151];
/// In the same order, without collisions.
const PLAIN: [u16; 5] = [2, 5, 3, 4, 1];

const GROUPS: [&str; 5] = ["(A,B)", "(C,D)", "(B,C)", "E", "(D,A,C,B)"];
const EXACT: usize = 5;
/// Operations: code | entity << 8.
const NAMES: [&str; 23] = [
    "create(A,B)", "create(C,D)", "create(B,C)", "create(E)", "create(D,A,C,B)", "destroy", "add A", "add B", "add C", "add D", "add E", "remove A", "remove B", "remove C", "remove D", "remove E",
    "remove_entity (A,B)", "remove_entity (C,D)", "remove_entity (C,B)", "remove_entity E", "remove_entity (D,B,A,C)", "write through iterations of (A,B)", "write through iterations of E",
];
fn ops(n: usize) -> Vec<Word> {
    let mut v: Vec<Word> = (0..EXACT as u64).collect();
    for e in 0..n.min(2) as u64 {
        v.extend((5..21).map(|o| o | e << 8));
    }
    if n > 0 {
        v.extend([21, 22]);
    }
    v
}

fn hash(out: &mut Vec<u64>, mut v: Vec<u64>) {
    v.sort_unstable();
    out.push(v.len() as u64);
    out.extend(v);
}
fn row<X: Val, Y: Val>((e, (x, y)): (&Entity, (&X, &Y))) -> u64 {
    (e.raw() as u64) << 40 ^ x.get() << 20 ^ y.get()
}
fn opt(x: Option<u64>) -> u64 {
    x.map_or(u64::MAX, |v| v)
}

struct W {
    r: Registry,
    es: Vec<Entity>,
    next: u64,
}
impl W {
    fn val(&mut self) -> u64 {
        self.next += 1;
        self.next
    }
    fn step<A: Val, B: Val, C: Val, D: Val, E: Val>(&mut self, w: Word, out: &mut Vec<u64>) {
        let e = self.es.get((w >> 8) as usize).copied().unwrap_or(Entity::INVALID);
        let v = self.val() * 16;
        macro_rules! create { ($x:expr) => { match lib(|| self.r.create_entity($x)) { Ok(h) => { out.push(h.raw() as u64); self.es.push(h); } Err(_) => out.push(u64::MAX - 1) } } }
        macro_rules! add { ($t:ident) => { match lib(|| self.r.add_component(e, $t::new(v))) { Ok(()) => out.push(1), Err(c) => out.push(c.get() | 1 << 60) } } }
        macro_rules! rem { ($t:ident) => { out.push(opt(lib(|| self.r.remove_component::<$t>(e)).ok().map(|c| c.get()))) } }
        match w & 0xff {
            0 => create!((A::new(v), B::new(v + 1))),
            1 => create!((C::new(v), D::new(v + 1))),
            2 => create!((B::new(v), C::new(v + 1))),
            3 => create!(E::new(v)),
            4 => create!((D::new(v), A::new(v + 1), C::new(v + 2), B::new(v + 3))),
            5 => out.push(lib(|| self.r.destroy_entity(e)) as u64),
            6 => add!(A),
            7 => add!(B),
            8 => add!(C),
            9 => add!(D),
            10 => add!(E),
            11 => rem!(A),
            12 => rem!(B),
            13 => rem!(C),
            14 => rem!(D),
            15 => rem!(E),
            16 => out.push(opt(lib(|| self.r.remove_entity::<(A, B)>(e)).map(|x| x.0.get() << 20 | x.1.get()))),
            17 => out.push(opt(lib(|| self.r.remove_entity::<(C, D)>(e)).map(|x| x.0.get() << 20 | x.1.get()))),
            18 => out.push(opt(lib(|| self.r.remove_entity::<(C, B)>(e)).map(|x| x.0.get() << 20 | x.1.get()))),
            19 => out.push(opt(lib(|| self.r.remove_entity::<E>(e)).map(|x| x.get()))),
            20 => out.push(opt(lib(|| self.r.remove_entity::<(D, B, A, C)>(e)).map(|x| x.0.get() << 45 | x.1.get() << 30 | x.2.get() << 15 | x.3.get()))),
            21 => {
                lib(|| {
                    let (a, b) = self.r.iter_components_exact_mut::<(A, B)>();
                    for x in a {
                        x.set(x.get() | 4);
                    }
                    for x in b {
                        x.set(x.get() | 4);
                    }
                    for (a, b) in self.r.iter_components_matching_mut::<(A, B)>() {
                        for x in a {
                            x.set(x.get() | 8);
                        }
                        for x in b {
                            x.set(x.get() | 8);
                        }
                    }
                });
            }
            _ => {
                lib(|| {
                    for x in self.r.iter_components_exact_mut::<E>() {
                        x.set(x.get() | 4);
                    }
                    for s in self.r.iter_components_matching_mut::<E>() {
                        for x in s {
                            x.set(x.get() | 8);
                        }
                    }
                });
            }
        }
    }
    fn observe<A: Val, B: Val, C: Val, D: Val, E: Val>(&mut self, out: &mut Vec<u64>) {
        let r = &mut self.r;
        for e in self.es.iter().copied() {
            lib(|| {
                let mut m = 0u64;
                for (i, b) in [r.has_component::<A>(e), r.has_component::<B>(e), r.has_component::<C>(e), r.has_component::<D>(e), r.has_component::<E>(e), r.has_components::<(B, A)>(e), r.has_components::<(D, C)>(e), r.has_components::<(B, C)>(e), r.has_components::<E>(e), r.has_components::<(A, B, C, D)>(e)].into_iter().enumerate() {
                    m |= (b as u64) << i;
                }
                out.push(m);
                for x in [r.get_component::<A>(e).map(|x| x.get()), r.get_component::<B>(e).map(|x| x.get()), r.get_component::<C>(e).map(|x| x.get()), r.get_component::<D>(e).map(|x| x.get()), r.get_component::<E>(e).map(|x| x.get())] {
                    out.push(opt(x));
                }
                out.push(opt(r.get_components::<(A, B)>(e).map(|x| x.0.get() << 20 | x.1.get())));
                out.push(opt(r.get_components::<(C, D)>(e).map(|x| x.0.get() << 20 | x.1.get())));
                out.push(opt(r.get_components_mut::<(C, B)>(e).map(|x| x.0.get() << 20 | x.1.get())));
            });
        }
        macro_rules! pair { ($x:ty) => { lib(|| {
            let (es, (a, b)) = r.iter_entity_components_exact::<$x>();
            let mut v = vec![es.len() as u64, a.len() as u64, b.len() as u64];
            v.extend(es.iter().zip(a.iter().zip(b)).map(row));
            hash(out, v);
            let (es, (a, b)) = r.iter_entity_components_exact_mut::<$x>();
            let mut v = vec![es.len() as u64, a.len() as u64, b.len() as u64];
            v.extend(es.iter().zip(a.iter().zip(&*b)).map(row));
            hash(out, v);
            let v = r.iter_entity_components_matching::<$x>().flat_map(|(es, (a, b))| es.iter().zip(a.iter().zip(b)).map(row)).collect();
            hash(out, v);
            let v = r.iter_filtered_entity_components_matching::<$x, _>(|d| d.len() < 4).flat_map(|(es, (a, b))| es.iter().zip(a.iter().zip(b)).map(row)).collect();
            hash(out, v);
        }) } }
        pair!((A, B));
        pair!((D, C));
        pair!((C, B));
        lib(|| {
            let (es, a) = r.iter_entity_components_exact::<E>();
            let mut v = vec![es.len() as u64, a.len() as u64];
            v.extend(es.iter().zip(a).map(|(e, a)| (e.raw() as u64) << 40 ^ a.get()));
            hash(out, v);
            let v = r.iter_entity_components_matching::<E>().flat_map(|(es, a)| es.iter().zip(a).map(|(e, a)| (e.raw() as u64) << 40 ^ a.get())).collect();
            hash(out, v);
            let (a, b, c, d) = r.iter_components_exact::<(A, B, C, D)>();
            hash(out, a.iter().zip(b).zip(c).zip(d).map(|(((a, b), c), d)| a.get() << 45 | b.get() << 30 | c.get() << 15 | d.get()).collect());
            let v = r.iter_entities().map(|e| e.raw() as u64).collect();
            hash(out, v);
        });
    }
}
fn play<A: Val, B: Val, C: Val, D: Val, E: Val>(path: &[Word]) -> (Vec<Vec<u64>>, usize) {
    let mut w = W { r: lib(Registry::default), es: vec![], next: 0 };
    let mut out = vec![];
    for o in path {
        let mut v = vec![];
        w.step::<A, B, C, D, E>(*o, &mut v);
        out.push(v);
    }
    let mut v = vec![];
    w.observe::<A, B, C, D, E>(&mut v);
    out.push(v);
    let n = w.es.len();
    let r = w.r;
    lib(|| drop(r));
    (out, n)
}
type Out = (Vec<Vec<u64>>, usize);
fn clash(p: &[Word]) -> Out {
    play::<K<9267>, K<14199>, K<11551>, K<12305>, K<2151>>(p)
}
fn plain(p: &[Word]) -> Out {
    play::<K<2>, K<5>, K<3>, K<4>, K<1>>(p)
}
fn word(o: &Word) -> String {
    let n = NAMES[(*o & 0xff) as usize];
    match o & 0xff {
        5..=20 => format!("{n} (entity {})", o >> 8),
        _ => n.into(),
    }
}
/// The results of one history with and without collisions.
fn compare(path: &[Word]) -> Result<usize, String> {
    let p = match catch_unwind(AssertUnwindSafe(|| plain(path))) {
        Ok(p) => p,
        // not about identifiers: other properties say what is wrong
        Err(_) => return Ok(0),
    };
    let c = match catch_unwind(AssertUnwindSafe(|| clash(path))) {
        Ok(c) => c,
        Err(_) => return Err("panics when the identifiers of the sets collide and does not otherwise".into()),
    };
    for (i, (x, y)) in c.0.iter().zip(&p.0).enumerate() {
        if x != y {
            let at = path.get(i).map(word).unwrap_or("observing the registry at the end".into());
            let k = x.iter().zip(y).position(|(a, b)| a != b).unwrap_or(x.len().min(y.len()));
            return Err(format!("{at}: the results differ when the identifiers of the sets collide (observation {k}: {:x?}, without collisions {:x?})", x.get(k), y.get(k)));
        }
    }
    Ok(p.1)
}

fn explore(cx: &Cx) {
    let one = |ids: &[u16]| ArchetypeDescriptor::compute_archetype_id(&{
        let mut v = ids.to_vec();
        v.sort();
        v.iter().map(|i| crate::eng_store::comp(*i)).collect::<Vec<_>>()
    });
    for (n, u) in [("colliding", CLASH), ("not colliding", PLAIN)] {
        let mut ids: Vec<_> = [&[u[0], u[1]][..], &[u[2], u[3]], &[u[1], u[2]], &[u[4]], &[u[0], u[1], u[2], u[3]]].iter().map(|s| one(s).into_u32()).collect();
        ids.sort();
        ids.dedup();
        cx.count(&format!("different identifiers of five sets, {n}"), ids.len() as u64);
    }
    let depth = 4 + cx.thorough() as usize + !cfg!(debug_assertions) as usize;
    // the first two operations split the work
    let mut firsts: Vec<Vec<Word>> = vec![];
    for a in ops(0) {
        for b in ops(1) {
            firsts.push(vec![a, b]);
        }
    }
    cx.par(firsts.len(), |i| {
        let mut stack = vec![firsts[i].clone()];
        let (mut n, mut seqs) = (0u64, 0u64);
        while let Some(path) = stack.pop() {
            if cx.stopped() {
                return;
            }
            let mut w = vec![CODE];
            w.extend(&path);
            let mut ents = None;
            cx.case(&w, || match compare(&path) {
                Ok(k) => {
                    ents = Some(k);
                    vec![]
                }
                Err(e) => bad(12, e),
            });
            n += path.len() as u64;
            seqs += 1;
            if let (Some(k), true) = (ents, path.len() < depth) {
                for o in ops(k) {
                    let mut p = path.clone();
                    p.push(o);
                    stack.push(p);
                }
            }
        }
        cx.transitions(n * 2);
        cx.states(seqs);
        cx.count("histories compared with and without collisions", seqs);
        cx.sample(&{
            let mut w = vec![CODE];
            w.extend(&firsts[i]);
            w
        });
    });
    cx.note(format!("registries: all sequences of up to {depth} operations over five component types of which {} and {} have one identifier, and {} and {}, compared with the same sequences without collisions", GROUPS[0], GROUPS[1], GROUPS[2], GROUPS[3]));
}
fn run(_: Tier, w: &[Word]) -> Vec<Fail> {
    match compare(&w[1..]) {
        Ok(_) => vec![],
        Err(e) => bad(12, e),
    }
}
fn show(_: Tier, w: &[Word]) -> String {
    format!("registry with A, B, C, D, E of the identifiers {CLASH:?}: {}", w[1..].iter().map(word).collect::<Vec<_>>().join("; "))
}
