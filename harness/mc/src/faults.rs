//! P19 and P20: in every state reached by the history exploration, every fault is injected into a rebuilt copy, and
//! every operation that may follow is tried afterwards.
use crate::core::*;
use crate::hist::*;
use crate::tables::*;
use crate::world::*;
use mcbase::alloc::{self, lib};
use mcbase::comps::*;
use mcbase::groups::*;
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::*};

/// Faults that were actually raised.
pub static FIRED: AtomicU64 = AtomicU64::new(0);

fn vname(k: u8, t: u32) -> String {
    format!("{}:{t:x}", kinds()[k as usize].name)
}
/// The values dropped must be among `allowed`, each once.
fn at_most(got: &[(u8, u32)], allowed: &[(u8, u32)]) -> Option<String> {
    let mut left = allowed.to_vec();
    for g in got {
        match left.iter().position(|x| x == g) {
            Some(i) => {
                left.swap_remove(i);
            }
            None => {
                let why = if allowed.contains(g) { "is dropped twice" } else { "is dropped although it is in use elsewhere or no longer exists" };
                return Some(format!("{} {why}", vname(g.0, g.1)));
            }
        }
    }
    None
}

// ---------------------------------------------------------------- destructors

/// Destroys entity `e` while the destructor of its component `k` panics. `None`: that destructor was not reached.
fn destroy_fault(w: &mut World, e: usize, k: usize) -> Option<()> {
    let (h, m, toks) = (w.ents[e].h, w.ents[e].mask, w.ents[e].toks);
    let n = w.live_count();
    take_drops();
    set_panic_on(k as u8, toks[k]);
    let reg = w.reg.as_mut().unwrap();
    let r = catch_unwind(AssertUnwindSafe(|| lib(|| reg.destroy_entity(h))));
    let fired = panicked();
    clear_panics();
    let drops = take_drops();
    let what = format!("destroying e{e} while the destructor of its {} panics", kinds()[k].name);
    if fired == 0 {
        w.dead = true;
        return None;
    }
    FIRED.fetch_add(1, Relaxed);
    if let Err(x) = r {
        if !x.is::<InjectedPanic>() {
            w.dead = true;
            w.fail(p(19), format!("{what}: another panic: {} at {}", pmsg(&*x), last_panic_loc()));
            return Some(());
        }
    }
    let own: Vec<(u8, u32)> = (0..NK).filter(|k| m >> k & 1 == 1 && kinds()[*k].drop).map(|k| (k as u8, toks[k])).collect();
    if let Some(x) = at_most(&drops, &own) {
        w.fail(p(19), format!("{what}: {x}"));
    }
    let err = alloc::take_err();
    if err != 0 {
        w.fail(p(19), format!("{what}: {}", alloc::err_text(err)));
    }
    w.unregister(e);
    debug_assert!(w.live_count() + 1 == n);
    Some(())
}

/// The entities on which faults are tried.
fn targets(w: &World) -> Vec<usize> {
    let v = w.live_ids();
    let n = v.len();
    if n <= 5 {
        return v;
    }
    vec![v[0], v[n / 2], v[n - 2], v[n - 1]]
}
fn sound(w: &World) -> bool {
    w.fails.is_empty() && !w.dead
}

/// Performs `setup` (with faults or without) on the state, then the operations, and checks everything.
fn after(s: &Scn, path: &[Word], n: u32, setup: &dyn Fn(&mut World), ops: &[Word]) -> (Vec<Fail>, Option<World>) {
    let mut w = build(s, path);
    w.always = p(n);
    setup(&mut w);
    if w.dead {
        return (w.into_fails(), None);
    }
    w.observe(&s.obs);
    for o in ops {
        w.apply(*o);
        if !w.dead {
            w.observe(&s.obs);
        }
    }
    if !ops.is_empty() {
        w.finish();
        return (w.into_fails(), None);
    }
    (std::mem::take(&mut w.fails), Some(w))
}
/// True (and reported in `into`) if the faulty run fails where the run without the fault does not.
fn compare(s: &Scn, path: &[Word], n: u32, what: &str, faulty: &dyn Fn(&mut World), plain: &dyn Fn(&mut World), ops: &[Word], into: &mut World) -> Option<Vec<Word>> {
    let (f, w) = after(s, path, n, faulty, ops);
    let next = w.map(|mut w| {
        let e = enabled(s, &w);
        w.finish();
        let f = std::mem::take(&mut w.fails);
        (e, f)
    });
    let mut fails = f;
    let mut e = vec![];
    if let Some((x, g)) = next {
        e = x;
        fails.extend(g);
    }
    if let Some(x) = fails.first() {
        let (g, w2) = after(s, path, n, plain, ops);
        let mut bad = g.len();
        if let Some(mut w2) = w2 {
            w2.finish();
            bad += w2.fails.len();
        }
        let tags = if bad == 0 { p(n) } else { 0 };
        let then = if ops.is_empty() { String::new() } else { format!(", then {}", show_ops(ops)) };
        into.fails.push(Fail { props: tags, msg: format!("after {what}{then}: {}", x.msg) });
        return None;
    }
    Some(e)
}

pub fn p19(s: &Scn, path: &[Word], w: &mut World) {
    if !sound(w) {
        return;
    }
    let t = tables();
    let ents = targets(w);
    let all: Vec<(usize, usize)> = ents.iter().flat_map(|e| (0..NK).map(|k| (*e, k))).filter(|(e, k)| w.ents[*e].mask >> k & 1 == 1 && kinds()[*k].drop).collect();
    for &(e, k) in &all {
        let what = format!("destroying e{e} while the destructor of its {} panics", kinds()[k].name);
        let fault = |w: &mut World| {
            destroy_fault(w, e, k);
        };
        let plain = |w: &mut World| w.apply(op(DESTROY, e as u64, 0));
        let Some(next) = compare(s, path, 19, &what, &fault, &plain, &[], w) else { return };
        for o in next {
            if compare(s, path, 19, &what, &fault, &plain, &[o], w).is_none() {
                return;
            }
        }
        // a second fault
        for &(e2, k2) in &all {
            if e2 == e {
                continue;
            }
            let what = format!("{what}, and destroying e{e2} while the destructor of its {} panics", kinds()[k2].name);
            let two = |w: &mut World| {
                destroy_fault(w, e, k);
                if !w.dead {
                    destroy_fault(w, e2, k2);
                }
            };
            let plain = |w: &mut World| {
                w.apply(op(DESTROY, e as u64, 0));
                w.apply(op(DESTROY, e2 as u64, 0));
            };
            if compare(s, path, 19, &what, &two, &plain, &[], w).is_none() {
                return;
            }
        }
    }
    // while the registry is dropped
    let vals: Vec<(u8, u32)> = w.live_ids().into_iter().flat_map(|i| { let e = &w.ents[i]; (0..NK).filter(|k| e.mask >> k & 1 == 1 && kinds()[*k].drop).map(|k| (k as u8, e.toks[k])).collect::<Vec<_>>() }).collect();
    let total = vals.len();
    let at: Vec<usize> = if total <= 24 { (0..total).collect() } else { vec![0, 1, 2, total / 2, total - 2, total - 1] };
    for n in at {
        let blocks = alloc::live_blocks();
        let mut x = build(s, path);
        let reg = x.reg.take().unwrap();
        take_drops();
        alloc::take_err();
        set_panic_nth(n as i64);
        let r = catch_unwind(AssertUnwindSafe(|| lib(|| drop(*reg))));
        let fired = panicked();
        clear_panics();
        let drops = take_drops();
        // (memory may be lost by a drop that panics)
        w.blocks0 += alloc::live_blocks() - blocks;
        if fired == 0 {
            continue;
        }
        FIRED.fetch_add(1, Relaxed);
        let what = format!("dropping the registry while destructor number {n} panics");
        let mut msg = at_most(&drops, &vals);
        let err = alloc::take_err();
        if err != 0 {
            msg.get_or_insert(alloc::err_text(err));
        }
        if let Err(x) = r {
            if !x.is::<InjectedPanic>() {
                msg.get_or_insert(format!("another panic: {} at {}", pmsg(&*x), last_panic_loc()));
            }
        }
        if let Some(m) = msg {
            w.fails.push(Fail { props: p(19), msg: format!("{what}: {m}") });
            return;
        }
    }
    // predicates
    let before = w.snapshot(s.kmask(), &s.obs.groups, true);
    for &g in &s.obs.groups {
        for mode in 4..8u8 {
            for n in 0..64 {
                let left = Cell::new(n);
                let pr = |_: &ArchetypeDescriptor| {
                    if left.get() == 0 {
                        alloc::user(|| std::panic::panic_any(InjectedPanic));
                    }
                    left.set(left.get() - 1);
                    n % 2 == 0
                };
                let mut chunks = vec![];
                let reg = w.reg.as_mut().unwrap();
                let r = catch_unwind(AssertUnwindSafe(|| (t.g[g].iter)(reg, mode, &pr, &mut chunks)));
                let Err(x) = r else { break };
                let what = format!("{}::<{}> whose predicate panics at call {n}", MODE_NAMES[mode as usize], t.name(g));
                if !x.is::<InjectedPanic>() {
                    w.fails.push(Fail { props: p(19), msg: format!("{what}: another panic: {}", pmsg(&*x)) });
                    w.dead = true;
                    return;
                }
                FIRED.fetch_add(1, Relaxed);
                let after = w.snapshot(s.kmask(), &s.obs.groups, true);
                let err = alloc::take_err();
                if before != after || err != 0 || w.dead || !take_drops().is_empty() {
                    w.fails.push(Fail { props: p(19), msg: format!("{what}: the registry is changed {}", alloc::err_text(err)) });
                    return;
                }
            }
        }
    }
    // all of them in one registry, then the usual checks
    w.always = p(19);
    w.observe(&s.obs);
    w.finish();
}

// ---------------------------------------------------------------- allocation

/// Which of the allocation requests of the operation obtain storage for components (counted from 0).
fn storage_requests(w: &mut World, o: Word) -> Vec<usize> {
    let n = w.ents.len();
    alloc::record();
    w.apply(o);
    let rec = alloc::recorded();
    let (c, a, _) = dec(o);
    let e = if c == CREATE { n } else { a };
    if w.dead || e >= w.ents.len() || !w.ents[e].alive {
        return vec![];
    }
    let (h, m) = (w.ents[e].h, w.ents[e].mask);
    let mut cols = vec![];
    let t = tables();
    for k in (0..NK).filter(|k| m >> k & 1 == 1) {
        let g = t.find(&[k as u8]);
        let mut chunks = vec![];
        let pr = |_: &ArchetypeDescriptor| true;
        if w.call("iteration", |r| (t.g[g].iter_ro)(r, M_EMATCH, &pr, &mut chunks)).is_none() {
            return vec![];
        }
        for c in &chunks {
            let (p, l) = c.ents.unwrap();
            if (0..l).any(|i| unsafe { *p.add(i) } == h) {
                cols.push(p as usize);
                cols.push(c.cols[0].0 as usize);
            }
        }
    }
    (0..rec.len()).filter(|i| cols.contains(&rec[*i])).collect()
}
/// Performs the operation while its `n`-th allocation request fails.
fn alloc_fault(w: &mut World, o: Word, n: usize) {
    let (c, a, b) = dec(o);
    let t = tables();
    take_drops();
    let what = format!("{} whose storage request number {n} fails", show_op(o));
    let given: Vec<(u8, u32)> = match c {
        CREATE => t.g[a].ks.iter().map(|k| (*k, w.next_tok() & kinds()[*k as usize].mask)).collect(),
        ADD => vec![(b as u8, w.next_tok() & kinds()[b].mask)],
        _ => vec![],
    };
    let toks: Vec<u32> = given.iter().map(|g| g.1).collect();
    let h = if c == CREATE { None } else { Some(w.ents[a].h) };
    let reg = w.reg.as_mut().unwrap();
    alloc::fail_at(n as i64, 0, false);
    let r = catch_unwind(AssertUnwindSafe(|| match c {
        CREATE => (t.g[a].create)(reg, &toks).is_ok(),
        ADD => (t.k[b].add)(reg, h.unwrap(), toks[0]).is_ok(),
        _ => (t.k[b].rem)(reg, h.unwrap()).is_ok(),
    }));
    let fired = alloc::failed() > 0;
    alloc::fail_at(-1, 0, false);
    let drops = take_drops();
    if !fired {
        // the request did not happen again: nothing is known about the outcome
        w.dead = true;
        return;
    }
    FIRED.fetch_add(1, Relaxed);
    if let Ok(x) = r {
        w.dead = true;
        w.fail(p(20), format!("{what}: returns ({}) instead of panicking", if x { "success" } else { "failure" }));
        return;
    }
    let allowed: Vec<(u8, u32)> = given.into_iter().filter(|g| kinds()[g.0 as usize].drop).collect();
    if let Some(x) = at_most(&drops, &allowed) {
        w.fail(p(20), format!("{what}: {x}"));
    }
    let err = alloc::take_err();
    if err != 0 {
        w.fail(p(20), format!("{what}: {}", alloc::err_text(err)));
    }
}

pub fn p20(s: &Scn, path: &[Word], w: &mut World) {
    if !sound(w) {
        return;
    }
    let nop = |_: &mut World| {};
    for o in enabled(s, w) {
        let (c, a, _) = dec(o);
        if !(c == CREATE || ((c == ADD || c == REM) && w.ents[a].alive)) {
            continue;
        }
        let mut x = build(s, path);
        let reqs = storage_requests(&mut x, o);
        if !x.into_fails().is_empty() {
            continue;
        }
        for n in reqs {
            let what = format!("{} whose storage request number {n} fails", show_op(o));
            let fault = |w: &mut World| alloc_fault(w, o, n);
            let Some(next) = compare(s, path, 20, &what, &fault, &nop, &[], w) else { return };
            for f in next {
                if compare(s, path, 20, &what, &fault, &nop, &[f], w).is_none() {
                    return;
                }
            }
            // memory is still short when it is tried again
            let mut x = build(s, path);
            alloc_fault(&mut x, o, n);
            if x.dead {
                continue;
            }
            let again = storage_requests(&mut x, o);
            x.dead = true;
            for m in again {
                let what = format!("{what}, and once more its request number {m}");
                let two = |w: &mut World| {
                    alloc_fault(w, o, n);
                    if !w.dead {
                        alloc_fault(w, o, m);
                    }
                };
                if compare(s, path, 20, &what, &two, &nop, &[], w).is_none() || compare(s, path, 20, &what, &two, &nop, &[o], w).is_none() {
                    return;
                }
            }
        }
    }
}

// ---------------------------------------------------------------- archetypes used directly

pub fn engines() -> Vec<crate::props::Eng> {
    vec![crate::props::Eng { code: 1019, explore, run, show }]
}
/// words: group, rows, row (or 99: drop of the archetype), component (or number of the destructor)
fn explore(cx: &Cx) {
    let t = &crate::eng_arch::tab().g;
    let mut n = 0;
    for (g, vt) in t.iter().enumerate() {
        if vt.ks.len() > if cx.thorough() { 14 } else { 4 } {
            continue;
        }
        for rows in 1..=if cx.thorough() { 6 } else { 4 } {
            for i in (0..rows).chain([99]) {
                let ks: Vec<u64> = if i == 99 { (0..rows * vt.ks.len() as u64).collect() } else { vt.ks.iter().map(|k| *k as u64).filter(|k| kinds()[*k as usize].drop).collect() };
                for k in ks {
                    let w = [1019, g as u64, rows, i, k];
                    cx.case(&w, || run(cx.tier, &w));
                    n += 1;
                    cx.states(1);
                    cx.transitions(1);
                    if cx.stopped() {
                        return;
                    }
                }
            }
        }
    }
    cx.note(format!("archetypes alone: {n} combinations of layout, number of rows, row dropped (or the whole archetype) and destructor that panics"));
}
fn run(_: Tier, c: &[Word]) -> Vec<Fail> {
    let vt = &crate::eng_arch::tab().g[c[1] as usize];
    let (rows, i, k) = (c[2] as usize, c[3] as usize, c[4]);
    let tok = |r: usize, k: u8| (1 + r as u32 * 17 + k as u32) & kinds()[k as usize].mask;
    let vals = |r: usize| -> Vec<(u8, u32)> { vt.ks.iter().filter(|k| kinds()[**k as usize].drop).map(|k| (*k, tok(r, *k))).collect() };
    let go = |fault: bool| -> Vec<String> {
        let mut bad = vec![];
        take_drops();
        alloc::take_err();
        let mut a = lib(|| shard_ecs::Archetype::with_capacity((vt.desc)(), 2));
        for r in 0..rows {
            let t: Vec<u32> = vt.ks.iter().map(|k| tok(r, *k)).collect();
            (vt.push)(&mut a, unsafe { shard_ecs::Entity::new_unchecked(r as u32, 1) }, &t);
        }
        take_drops();
        let what;
        let mut left: Vec<usize> = (0..rows).collect();
        if i == 99 {
            what = format!("dropping the archetype while destructor {k} panics");
            if fault {
                set_panic_nth(k as i64);
            }
            let r = catch_unwind(AssertUnwindSafe(|| lib(|| drop(a))));
            let drops = take_drops();
            let fired = panicked();
            clear_panics();
            FIRED.fetch_add(fired as u64, Relaxed);
            if let Err(x) = r {
                if !x.is::<InjectedPanic>() {
                    bad.push(format!("another panic: {}", pmsg(&*x)));
                }
            }
            let all: Vec<(u8, u32)> = left.iter().flat_map(|r| vals(*r)).collect();
            bad.extend(at_most(&drops, &all));
        } else {
            what = format!("swap_drop_unchecked({i}) while the destructor of {} panics", kinds()[k as usize].name);
            if fault {
                set_panic_on(k as u8, tok(i, k as u8));
            }
            let r = catch_unwind(AssertUnwindSafe(|| lib(|| unsafe { a.swap_drop_unchecked(i as u32) })));
            let drops = take_drops();
            let fired = panicked();
            clear_panics();
            FIRED.fetch_add(fired as u64, Relaxed);
            if let Err(x) = r {
                if !x.is::<InjectedPanic>() {
                    bad.push(format!("another panic: {}", pmsg(&*x)));
                    std::mem::forget(a);
                    return bad;
                }
            }
            bad.extend(at_most(&drops, &vals(i)));
            left.swap_remove(i);
            let n = a.len() as usize;
            if n != left.len() || a.entities().iter().map(|e| e.index() as usize).ne(left.iter().copied()) {
                bad.push(format!("{n} rows are left, should be {}, or other handles", left.len()));
                std::mem::forget(a);
            } else {
                for v in 0..6 {
                    let c = (vt.view)(&mut a, v);
                    for (j, k) in vt.ks.iter().enumerate() {
                        let k8 = *k as usize;
                        for (x, r) in left.iter().enumerate() {
                            let t = unsafe { (tables().k[k8].tok)(c.cols[j].0.add(x * kinds()[k8].size)) };
                            if c.cols[j].1 != n || t != tok(*r, *k) {
                                bad.push(format!("row {x}: {} is {t:x}, should be {:x}", kinds()[k8].name, tok(*r, *k)));
                            }
                        }
                    }
                }
                if bad.is_empty() {
                    lib(|| drop(a));
                    let all: Vec<(u8, u32)> = left.iter().flat_map(|r| vals(*r)).collect();
                    let d = take_drops();
                    bad.extend(at_most(&d, &all).map(|m| format!("then dropping the archetype: {m}")));
                    if d.len() != all.len() {
                        bad.push("then dropping the archetype: values of other rows are lost".into());
                    }
                } else {
                    std::mem::forget(a);
                }
            }
        }
        let e = alloc::take_err();
        if e != 0 {
            bad.push(alloc::err_text(e));
        }
        bad.iter().map(|b| format!("{what}: {b}")).collect()
    };
    let bad = go(true);
    match bad.into_iter().next() {
        Some(m) if go(false).is_empty() => vec![Fail { props: p(19), msg: m }],
        Some(m) => vec![Fail { props: 0, msg: m }],
        None => vec![],
    }
}
fn show(_: Tier, c: &[Word]) -> String {
    let vt = &crate::eng_arch::tab().g[c[1] as usize];
    let n: Vec<&str> = vt.ks.iter().map(|k| kinds()[*k as usize].name).collect();
    format!("archetype ({}) with {} rows; {}", n.join(","), c[2], if c[3] == 99 { format!("drop it, destructor {} panics", c[4]) } else { format!("drop row {}, the destructor of {} panics", c[3], kinds()[c[4] as usize].name) })
}
