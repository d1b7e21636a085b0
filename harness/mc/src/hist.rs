//! Exhaustive exploration of operation histories on the real registry: every sequence of enabled operations up
//! to a depth (stateless phase), then every reachable state up to a larger depth (deduplicated phase).
use crate::core::*;
use crate::tables::*;
use crate::world::*;
use std::sync::Mutex;

#[derive(Clone)]
pub struct Scn {
    pub name: &'static str,
    /// History that builds the initial state.
    pub base: Vec<Word>,
    pub creates: Vec<usize>,
    /// Groups tried with remove_entity on every entity.
    pub removes: Vec<usize>,
    pub kinds: Vec<u8>,
    pub max_live: usize,
    pub destroy: bool,
    pub addrem: bool,
    pub sets: bool,
    pub setgs: Vec<usize>,
    pub itersets: Vec<(usize, u8)>,
    pub obs: Obs,
    /// Properties to which every failure in this scenario is attributed.
    pub always: u64,
    pub stateless: usize,
    pub depth: usize,
    pub max_states: usize,
    /// Check destructors and memory at the end of every history.
    pub finish: bool,
    /// Further checks performed in every state reached, after the observation.
    pub custom: Option<fn(&Scn, &[Word], &mut World)>,
    /// Failures that disappear when every group is replaced by the first ordering of its set belong to P10.
    pub differential: bool,
    /// Everything is observed after every operation, not only in the state reached.
    pub watch: bool,
    /// Lookups and iterations are operations of the histories, too.
    pub reads: bool,
}

impl Scn {
    pub fn kmask(&self) -> u32 {
        self.kinds.iter().fold(0, |m, k| m | 1 << k)
    }
}

/// The entities on which operations are tried: all if few, else the boundary positions.
fn focus(w: &World) -> Vec<usize> {
    let v = w.live_ids();
    let n = v.len();
    if n <= 6 {
        return v;
    }
    if n > 60_000 {
        return vec![v[0], v[n / 2], v[n - 5], v[n - 1]];
    }
    let mut f = vec![v[0], v[1], v[n / 2], v[n - 2], v[n - 1]];
    f.dedup();
    f
}

pub fn enabled(s: &Scn, w: &World) -> Vec<Word> {
    let mut v = vec![];
    let t = tables();
    let room = w.live_count() < s.max_live;
    for g in &s.creates {
        if room || !t.g[*g].wf {
            v.push(op(CREATE, *g as u64, 0));
        }
    }
    for e in focus(w) {
        let m = w.ents[e].mask;
        if s.destroy {
            v.push(op(DESTROY, e as u64, 0));
        }
        for g in &s.removes {
            v.push(op(REMOVE, e as u64, *g as u64));
        }
        for k in &s.kinds {
            let has = m >> k & 1 == 1;
            if s.addrem {
                v.push(op(ADD, e as u64, *k as u64));
                v.push(op(REM, e as u64, *k as u64));
            }
            if s.sets && has {
                v.push(op(SET, e as u64, *k as u64));
            }
        }
        for g in &s.setgs {
            if m & t.g[*g].mask == t.g[*g].mask {
                v.push(op(SETG, e as u64, *g as u64));
            }
        }
    }
    for (g, mode) in &s.itersets {
        v.push(op(ITERSET, *g as u64, *mode as u64));
    }
    if s.reads {
        let gone = (0..w.ents.len()).rev().find(|e| !w.ents[*e].alive);
        for e in focus(w).into_iter().chain(gone) {
            for k in &s.kinds {
                v.push(op(READ, e as u64, *k as u64));
            }
            for g in s.obs.groups.iter().filter(|g| t.g[**g].ks.len() > 1).take(1) {
                v.push(op(READG, e as u64, *g as u64));
            }
        }
        for g in &s.obs.groups {
            for m in (0..12u64).filter(|m| s.obs.modes >> m & 1 == 1) {
                v.push(op(ITER, *g as u64, m));
                if (4..8).contains(&m) {
                    v.push(op(ITER, *g as u64, m | 16));
                }
            }
        }
        v.push(op(MOVED, 0, 0));
    }
    v
}

pub fn build(s: &Scn, path: &[Word]) -> World {
    let mut w = World::new();
    w.always = s.always;
    for o in &s.base {
        w.apply(*o);
    }
    for o in path {
        if w.dead {
            break;
        }
        w.apply(*o);
        if s.watch {
            w.observe(&s.obs);
        }
    }
    w
}

/// Runs one history with all checks.
pub fn run_path(s: &Scn, path: &[Word]) -> (Vec<Fail>, u128, u64) {
    let mut w = build(s, path);
    let mut key = 0;
    if !w.dead {
        w.observe(&s.obs);
        key = w.key(s.kmask());
        if s.reads {
            // what was read last may be remembered somewhere
            for o in path.iter().rev().take(2).filter(|o| matches!(dec(**o).0, READ | READG | ITER | MOVED)) {
                key = key.rotate_left(23) ^ (*o as u128).wrapping_mul(0x9E37_79B9_7F4A_7C15_F39C_C060_5CED_C835);
            }
        }
    }
    if let (Some(f), false) = (s.custom, w.dead) {
        f(s, path, &mut w);
    }
    if s.finish {
        w.finish();
    }
    let c = w.calls;
    let mut fails = w.into_fails();
    if s.differential && fails.iter().any(|f| f.props & p(10) == 0) {
        let t = canonical(s);
        let q: Vec<Word> = path.iter().map(|o| canonical_op(*o)).collect();
        if run_path(&t, &q).0.is_empty() {
            fails.iter_mut().for_each(|f| f.props |= p(10));
        }
    }
    (fails, key, c)
}

/// The first registered ordering of the group's component set.
pub fn canonical_group(g: usize) -> usize {
    let t = tables();
    if t.g[g].wf { t.of_mask(t.g[g].mask).unwrap() } else { g }
}
pub fn canonical_op(o: Word) -> Word {
    let (c, a, b) = dec(o);
    match c {
        CREATE | ITERSET | BULK | CYCLE | RAMP => op(c, canonical_group(a) as u64, b as u64),
        ITER => op(c, canonical_group(a) as u64, b as u64),
        REMOVE | SETG | READG => op(c, a as u64, canonical_group(b) as u64),
        _ => o,
    }
}
fn canonical(s: &Scn) -> Scn {
    let mut t = s.clone();
    t.differential = false;
    let m = |v: &mut Vec<usize>| v.iter_mut().for_each(|g| *g = canonical_group(*g));
    m(&mut t.creates);
    m(&mut t.removes);
    m(&mut t.setgs);
    m(&mut t.obs.groups);
    t.base.iter_mut().for_each(|o| *o = canonical_op(*o));
    t
}

pub fn explore(cx: &Cx, id: u64, s: &Scn) {
    if cx.stopped() {
        return;
    }
    let seen = Seen::new();
    let mut frontier: Vec<Box<[Word]>> = vec![Box::new([])];
    let mut total_states = 1usize;
    let calls = std::sync::atomic::AtomicU64::new(0);
    // the base state itself
    let head = |path: &[Word]| {
        let mut v = vec![id];
        v.extend_from_slice(path);
        v
    };
    let t0 = std::time::Instant::now();
    let mut bad = cx.case(&head(&[]), || {
        let (f, k, _) = run_path(s, &[]);
        seen.insert(k);
        f
    });
    cx.states(1);
    let mut reached = 0;
    let mut per_level = vec![];
    let mut trans = 0u64;
    for level in 1..=s.depth {
        if bad || cx.stopped() || frontier.is_empty() {
            break;
        }
        let next: Mutex<Vec<Box<[Word]>>> = Mutex::new(vec![]);
        let tr = std::sync::atomic::AtomicU64::new(0);
        let fresh = std::sync::atomic::AtomicU64::new(0);
        let stateless = level <= s.stateless;
        let last = level == s.depth;
        cx.par(frontier.len(), |i| {
            let path = &frontier[i];
            let mut ops = vec![];
            if cx.case(&head(path), || {
                let w = build(s, path);
                if !w.dead {
                    ops = enabled(s, &w);
                }
                vec![]
            }) {
                return;
            }
            let mut child: Vec<Word> = path.to_vec();
            child.push(0);
            let mut out = vec![];
            for o in ops {
                if cx.stop.load(std::sync::atomic::Ordering::Relaxed) {
                    return;
                }
                *child.last_mut().unwrap() = o;
                let mut key = None;
                let hit = cx.case(&head(&child), || {
                    let (f, k, c) = run_path(s, &child);
                    calls.fetch_add(c, std::sync::atomic::Ordering::Relaxed);
                    if k != 0 {
                        key = Some(k);
                    }
                    f
                });
                tr.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if hit {
                    return;
                }
                if let Some(k) = key {
                    let new = seen.insert(k);
                    if new {
                        fresh.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    }
                    if !last && (new || stateless) {
                        out.push(child.clone().into_boxed_slice());
                    }
                }
            }
            if !out.is_empty() {
                next.lock().unwrap().extend(out);
            }
        });
        bad = cx.stop.load(std::sync::atomic::Ordering::Relaxed);
        let tr = tr.into_inner();
        trans += tr;
        cx.transitions(tr);
        let fr = fresh.into_inner();
        cx.states(fr);
        total_states += fr as usize;
        per_level.push(tr);
        if cx.stopped() {
            break;
        }
        reached = level;
        frontier = next.into_inner().unwrap();
        // a fixed order, independent of thread timing
        frontier.sort_unstable();
        if let Some(f) = frontier.get(frontier.len() / 2) {
            if level >= 2 {
                cx.sample(&head(f));
            }
        }
        if total_states > s.max_states {
            if level < s.depth {
                cx.note(format!("scenario {id} ({}): state bound {} reached after depth {level}", s.name, s.max_states));
            }
            break;
        }
    }
    cx.count("library calls", calls.into_inner());
    if matches!(cx.prop, 19 | 20) {
        cx.count("faults fired", crate::faults::FIRED.swap(0, std::sync::atomic::Ordering::Relaxed));
    }
    cx.note(format!(
        "scenario {id} {}: base [{}]; complete to depth {reached} (every sequence to depth {}), {total_states} distinct states, {trans} transitions (per level {:?}), {:.1} s",
        s.name,
        show_ops(&s.base),
        s.stateless.min(reached),
        per_level,
        t0.elapsed().as_secs_f64()
    ));
}

/// Observation settings.
pub fn obs(kinds: &[u8], groups: Vec<usize>) -> Obs {
    Obs { live: false, ents: false, kinds: kinds.iter().fold(0, |m, k| m | 1 << k), groups, modes: 0, preds: vec![], dead: false, dead_groups: vec![], styles: false }
}
pub const M4: u16 = 0x00F;
pub const F4: u16 = 0x0F0;
pub const X4: u16 = 0xF00;

/// One group per non-empty subset of pal1 (the first ordering registered).
pub fn pal1_sets() -> Vec<usize> {
    let t = tables();
    let mut seen = vec![];
    let mut v = vec![];
    for g in t.pal1.clone() {
        if !seen.contains(&t.g[g].mask) {
            seen.push(t.g[g].mask);
            v.push(g);
        }
    }
    v
}
pub fn pal2_sets() -> Vec<usize> {
    tables().pal2.clone().collect()
}
pub fn gi(ks: &[u8]) -> usize {
    tables().find(ks)
}
