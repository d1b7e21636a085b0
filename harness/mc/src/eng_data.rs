//! P16 (handles and slot records), P17 (hashes and identifiers), P21 (descriptor algebra): complete enumeration of
//! the value domains.
use crate::core::*;
use crate::props::*;
use crate::tables::*;
use mcbase::comps::*;
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::*;

pub fn bad(n: u32, m: String) -> Vec<Fail> {
    vec![Fail { props: p(n), msg: m }]
}

// ------------------------------------------------------------------------------------------------ P16

const C16: u64 = 1016;
pub fn engines16() -> Vec<Eng> {
    vec![Eng { code: C16, explore: explore16, run: run16, show: show16 }]
}
fn explore16(cx: &Cx) {
    // [code, part, block]
    let full = cx.thorough() || !cfg!(debug_assertions);
    let mut v: Vec<[u64; 4]> = vec![];
    for b in 0..256u64 {
        v.push([C16, 0, b, full as u64]);
        v.push([C16, 1, b, 0]);
        v.push([C16, 2, b, 0]);
        v.push([C16, 3, b, 0]);
        v.push([C16, 4, b, 0]);
    }
    cx.par(v.len(), |i| {
        cx.case(&v[i], || run16(cx.tier, &v[i]));
        if i % 131 == 7 {
            cx.sample(&v[i]);
        }
    });
    let handles: u64 = if full { 1 << 32 } else { (1 << 24) * 16 };
    cx.count("handles (index, version) enumerated", handles);
    cx.count("row indices enumerated", 1 << 24);
    cx.count("slot records enumerated", (1 << 24) * 3 + (1 << 16) * 1024);
    cx.states(handles + (1 << 24) * 4 + (1 << 26));
    cx.transitions(handles * 3 + (1 << 24) * 6);
    cx.note(format!("all 2^24 indices x {} versions built, read back, rebuilt from the raw value, each part overwritten; all slot indices; slot records over all row indices, all archetype indices, all versions", if full { 256 } else { 16 }));
}
fn run16(_: Tier, w: &[Word]) -> Vec<Fail> {
    let b = w[2] as u32;
    match w[1] {
        0 => {
            let step = if w[3] == 1 { 1 } else { 16 };
            for lo in 0..1u32 << 16 {
                let i = b << 16 | lo;
                let mut v = if step == 1 { 0 } else { (i ^ i >> 8 ^ i >> 16) & 15 };
                while v < 256 {
                    let ver = v as u8;
                    let e = unsafe { Entity::new_unchecked(i, ver) };
                    let r = unsafe { Entity::from_raw(e.raw()) };
                    let mut s = e;
                    s.set_version(!ver);
                    let mut t = e;
                    unsafe { t.set_index(!i & 0xFF_FFFF) };
                    let ok = e.index() == i
                        && e.version() == ver
                        && r == e
                        && r.raw() == e.raw()
                        && r.index() == i
                        && r.version() == ver
                        && e.is_valid() == !(i == 0xFF_FFFF && ver == 255)
                        && (e == Entity::INVALID) == (i == 0xFF_FFFF && ver == 255)
                        && s.index() == i
                        && s.version() == !ver
                        && s != e
                        && t.index() == !i & 0xFF_FFFF
                        && t.version() == ver
                        && t != e;
                    if !ok {
                        return bad(16, format!("handle ({i}, {ver}): reads ({}, {}), valid {}, from raw ({}, {}); after set_version({}): ({}, {}); after set_index({}): ({}, {})", e.index(), e.version(), e.is_valid(), r.index(), r.version(), !ver, s.index(), s.version(), !i & 0xFF_FFFF, t.index(), t.version()));
                    }
                    v += step;
                }
            }
        }
        1 => {
            // every pair of versions, and every index replaced, for structured indices; block = old version
            let mut idx: Vec<u32> = vec![0, 0xFF_FFFF, 0x55_5555, 0xAA_AAAA];
            for x in 0..24 {
                idx.push(1 << x);
                idx.push(0xFF_FFFF ^ 1 << x);
                idx.push((1 << x) - 1);
            }
            for &i in &idx {
                for v2 in 0..=255u8 {
                    let mut e = unsafe { Entity::new_unchecked(i, b as u8) };
                    e.set_version(v2);
                    if e.index() != i || e.version() != v2 || e != unsafe { Entity::new_unchecked(i, v2) } {
                        return bad(16, format!("({i}, {b}) after set_version({v2}): ({}, {})", e.index(), e.version()));
                    }
                }
                for &j in &idx {
                    let mut e = unsafe { Entity::new_unchecked(i, b as u8) };
                    unsafe { e.set_index(j) };
                    if e.index() != j || e.version() != b as u8 || e != unsafe { Entity::new_unchecked(j, b as u8) } {
                        return bad(16, format!("({i}, {b}) after set_index({j}): ({}, {})", e.index(), e.version()));
                    }
                }
            }
            if b == 0 && (Entity::default() != Entity::INVALID || Entity::invalid() != Entity::INVALID || Entity::INVALID.is_valid() || Entity::INVALID.raw() != u32::MAX) {
                return bad(16, "the invalid handle is not the all-ones pair".into());
            }
        }
        2 => {
            // row indices
            for lo in 0..1u32 << 16 {
                let i = b << 16 | lo;
                let x = unsafe { IndexInArchetype::new_unchecked(i) };
                let y = IndexInArchetype::from_bytes(x.to_bytes());
                let bs = [b as u8, (lo >> 8) as u8, lo as u8];
                let z = IndexInArchetype::from_bytes(bs);
                if x.value() != i || y.value() != i || y != x || z.to_bytes() != bs {
                    return bad(16, format!("row index {i}: value {}, bytes {:?}, back {}; bytes {bs:?} become {:?}", x.value(), x.to_bytes(), y.value(), z.to_bytes()));
                }
                match IndexInArchetype::new(i) {
                    Some(n) if i < 0xFF_FFFF && n.value() == i => {}
                    None if i == 0xFF_FFFF => {}
                    n => return bad(16, format!("IndexInArchetype::new({i}) is {n:?}")),
                }
                if IndexInArchetype::new(i + (1 << 24)).is_some() {
                    return bad(16, format!("IndexInArchetype::new({}) is accepted", i + (1 << 24)));
                }
            }
            for lo in 0..256u32 {
                let a = (b << 8 | lo) as u16;
                match ArchetypeIndex::new(a) {
                    Some(n) if a != u16::MAX && n.value() == a => {}
                    None if a == u16::MAX => {}
                    n => return bad(16, format!("ArchetypeIndex::new({a}) is {n:?}")),
                }
            }
        }
        3 => {
            // slot records: all row indices, with three combinations of the other fields
            for lo in 0..1u32 << 16 {
                let i = b << 16 | lo;
                for (v, a) in [(0u8, 0u16), (255, 65534), ((i >> 3) as u8, (i >> 5) as u16)] {
                    if let Some(m) = record(v, i, a, (lo % 6) as u8) {
                        return bad(16, m);
                    }
                }
            }
        }
        _ => {
            // slot records: block = version, all archetype indices, four row indices, every order of writing
            for a in 0..=u16::MAX {
                let i = (a as u32).wrapping_mul(257) & 0xFF_FFFF;
                if let Some(m) = record(b as u8, i, a, (a % 6) as u8) {
                    return bad(16, m);
                }
            }
            for o in 0..6 {
                for (i, a) in [(0, 0), (0xFF_FFFF, 0xFFFF), (0x01_0203, 0x0405), (0xFE_FDFC, 0xFBFA)] {
                    if let Some(m) = record(b as u8, i, a, o) {
                        return bad(16, m);
                    }
                }
            }
        }
    }
    vec![]
}
/// Writes a record's fields in one of the six orders, over a record full of something else, and reads them back.
#[inline]
fn record(v: u8, i: u32, a: u16, order: u8) -> Option<String> {
    let mut e = EntityEntry::default();
    e.set_version(!v);
    e.set_index_in_archetype(unsafe { IndexInArchetype::new_unchecked(!i & 0xFF_FFFF) });
    e.set_archetype_index(!a);
    const O: [[u8; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    let (mut cv, mut ci, mut ca) = (!v, !i & 0xFF_FFFF, !a);
    for f in O[order as usize] {
        match f {
            0 => {
                e.set_version(v);
                cv = v
            }
            1 => {
                e.set_index_in_archetype(unsafe { IndexInArchetype::new_unchecked(i) });
                ci = i
            }
            _ => {
                e.set_archetype_index(a);
                ca = a
            }
        }
        if e.version() != cv || e.index_in_archetype().value() != ci || e.archetype_index() != ca || e.is_valid() != (ca != u16::MAX) {
            return Some(format!("slot record holds version {}, row {}, archetype {}, valid {}; written were {cv}, {ci}, {ca}", e.version(), e.index_in_archetype().value(), e.archetype_index(), e.is_valid()));
        }
    }
    let f = e.clone();
    unsafe { e.invalidate(!i & 0xFF_FFFF) };
    if e.is_valid() || e.version() != v || e.index_in_archetype().value() != !i & 0xFF_FFFF {
        return Some(format!("invalidate({}) of record ({v}, {i}, {a}) gives version {}, next {}, valid {}", !i & 0xFF_FFFF, e.version(), e.index_in_archetype().value(), e.is_valid()));
    }
    if f.version() != v || f.archetype_index() != a || f.index_in_archetype().value() != i {
        return Some("a cloned record changed with its original".into());
    }
    None
}
fn show16(_: Tier, w: &[Word]) -> String {
    let what = ["handles with index in block", "handles with version", "row indices in block", "slot records with row index in block", "slot records with version"];
    format!("{} {}", what[w[1] as usize], w[2])
}

// ------------------------------------------------------------------------------------------------ P17

const C17: u64 = 1017;
pub fn engines17() -> Vec<Eng> {
    vec![Eng { code: C17, explore: explore17, run: run17, show: show17 }]
}
// An independent FNV-1a.
fn r64(b: &[u8]) -> u64 {
    b.iter().fold(14695981039346656037, |h, x| (h ^ *x as u64).wrapping_mul(1099511628211))
}
fn r32(b: &[u8]) -> u32 {
    b.iter().fold(2166136261, |h, x| (h ^ *x as u32).wrapping_mul(16777619))
}
fn r16(b: &[u8]) -> u16 {
    let h = r32(b);
    (h >> 16) as u16 ^ h as u16
}
fn hash_case(b: &[u8]) -> Option<String> {
    let n = b.len();
    let mut limits = vec![None];
    if n <= 40 {
        limits.extend((0..=n + 2).map(Some));
    } else {
        limits.extend([0, 1, 2, n / 2, n - 1, n, n + 1].map(Some));
    }
    limits.extend([Some(255), Some(256), Some(65536), Some(usize::MAX)]);
    for l in limits {
        let s = match l {
            Some(v) if v >= 1 && v <= n => &b[..v],
            _ => b,
        };
        let (a, c, d) = (fnv1a::fnv1a_hash_64(b, l), fnv1a::fnv1a_hash_32(b, l), fnv1a::fnv1a_hash_16_xor(b, l));
        if a != r64(s) || c != r32(s) || d != r16(s) {
            return Some(format!("hashes of {:?} (length {n}, limit {l:?}) are {a:#x}, {c:#x}, {d:#x}; FNV-1a gives {:#x}, {:#x}, {:#x}", &b[..n.min(24)], r64(s), r32(s), r16(s)));
        }
    }
    if let Ok(s) = std::str::from_utf8(b) {
        if fnv1a::fnv1a_hash_str_64(s) != r64(b) || fnv1a::fnv1a_hash_str_32(s) != r32(b) || fnv1a::fnv1a_hash_str_16_xor(s) != r16(b) {
            return Some(format!("string hashes of {:?} differ from FNV-1a", &s[..s.len().min(40)]));
        }
    }
    None
}
macro_rules! named {
    ($v:ident: $($n:expr),* $(,)?) => {{ $({
        // three types of different layout with one name
        struct X1; struct X2(#[allow(dead_code)] u64, #[allow(dead_code)] u8); struct X3(#[allow(dead_code)] Vec<u8>);
        impl Component for X1 { const NAME: &'static str = $n; }
        impl Component for X2 { const NAME: &'static str = $n; }
        impl Component for X3 { const NAME: &'static str = $n; }
        $v.push(($n, [X1::ID.into_u16(), X2::ID.into_u16(), X3::ID.into_u16()], [<X1 as Component>::DESCRIPTOR, <X2 as Component>::DESCRIPTOR, <X3 as Component>::DESCRIPTOR]));
    })* }};
}
fn names() -> Vec<(&'static str, [u16; 3], [ComponentDescriptor; 3])> {
    let mut v = vec![];
    named!(v: "", "a", "b", "A", "aa", "ab", "ba", "Position", "Velocity", "Health", "position", " Position", "Position ", "crate::a::Position",
        "0", "\0", "\0\0", "a\0", "\u{7f}", "\u{80}", "é", "日本語", "🦀", "r#type", "\n", "\"quoted\"", "a b c",
        "a very long component name that is longer than any register, any cache line and any reasonable fixed buffer used to compute it, to be sure that every byte counts",
        "a very long component name that is longer than any register, any cache line and any reasonable fixed buffer used to compute it, to be sure that every byte countz",
        "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ", "abcdefghijklmno", "abcdefghijklmnop", "abcdefghijklmnopq",
        "abcdefg", "abcdefgh", "abcdefghi", "abc", "abcd", "abcde", "x86_64", "T", "Vec<T>", "costarring", "liquid", "declinate", "macallums");
    v
}
fn explore17(cx: &Cx) {
    // all strings up to length 2 (3 in the thorough tier), one block per first byte
    let mut v: Vec<Vec<u64>> = vec![vec![C17, 0, 0, 0], vec![C17, 9, 0, 0]];
    for b in 0..256u64 {
        v.push(vec![C17, 1, b, 2 + cx.thorough() as u64]);
        v.push(vec![C17, 2, b, 0]);
        v.push(vec![C17, 3, b, 0]);
    }
    cx.par(v.len(), |i| {
        cx.case(&v[i], || run17(cx.tier, &v[i]));
        if i % 79 == 1 {
            cx.sample(&v[i]);
        }
    });
    let n: u64 = if cx.thorough() { 1 + 256 + 65536 + (1 << 24) } else { 1 + 256 + 65536 } + 256 * 34 * 256 + 256 * 4200;
    cx.count("byte strings hashed", n);
    cx.count("component names", names().len() as u64);
    cx.states(n);
    cx.transitions(n * 8);
    cx.note(format!("all byte strings of length <= {}; for every length <= 33 and position, every byte value there; patterns of every length <= 4200; every limit; 3 hash widths against an independent FNV-1a", if cx.thorough() { 3 } else { 2 }));
}
fn run17(_: Tier, w: &[Word]) -> Vec<Fail> {
    let b = w[2] as u8;
    let e = |m| bad(17, m);
    match w[1] {
        0 => {
            if let Some(m) = hash_case(&[]) {
                return e(m);
            }
        }
        1 => {
            if let Some(m) = hash_case(&[b]) {
                return e(m);
            }
            for c in 0..=255u8 {
                if let Some(m) = hash_case(&[b, c]) {
                    return e(m);
                }
                if w[3] == 3 {
                    for d in 0..=255u8 {
                        if let Some(m) = hash_case(&[b, c, d]) {
                            return e(m);
                        }
                    }
                }
            }
        }
        2 => {
            // value b at every position of strings of every length <= 33
            for n in 3..=33usize {
                for i in 0..n {
                    let mut s: Vec<u8> = (0..n).map(|x| (x * 37 + n) as u8).collect();
                    s[i] = b;
                    if let Some(m) = hash_case(&s) {
                        return e(m);
                    }
                }
            }
        }
        3 => {
            let mut n = 34 + b as usize;
            while n <= 4200 {
                let s: Vec<u8> = (0..n).map(|x| ((x * x + x * 3 + n) % 251) as u8 ^ b).collect();
                if let Some(m) = hash_case(&s) {
                    return e(m);
                }
                n += 256;
            }
        }
        _ => {
            for (n, ids, ds) in names() {
                let want = r16(n.as_bytes());
                for j in 0..3 {
                    if ids[j] != want || ds[j].component_type_id().into_u16() != want {
                        return e(format!("a component named {n:?} has identifier {:#x} (descriptor {:#x}), the folded hash of its name is {want:#x}", ids[j], ds[j].component_type_id().into_u16()));
                    }
                }
            }
            for k in kinds() {
                if k.name == "Quad" && k.id != r16(b"Quad") {
                    return e(format!("component Quad has identifier {:#x}", k.id));
                }
            }
        }
    }
    vec![]
}
fn show17(_: Tier, w: &[Word]) -> String {
    match w[1] {
        0 => "the empty string".into(),
        1 => format!("all strings starting with byte {} up to length {}", w[2], w[3]),
        2 => format!("byte {} at every position of strings of length 3 to 33", w[2]),
        3 => format!("patterns of length 34 to 4200, mask {}", w[2]),
        _ => "default identifiers of named component types".into(),
    }
}

// ------------------------------------------------------------------------------------------------ P21

const C21: u64 = 1021;
pub fn engines21() -> Vec<Eng> {
    vec![Eng { code: C21, explore: explore21, run: run21, show: show21 }]
}
/// The drop handler of the I-th descriptor: tells which one it is when called. (Function pointers are never compared:
/// the same function may have several addresses.)
unsafe fn mark<const I: usize>(p: *mut u8, len: usize) {
    *p = I as u8 ^ len as u8;
}
const MARKS: [unsafe fn(*mut u8, usize); 16] = [mark::<0>, mark::<1>, mark::<2>, mark::<3>, mark::<4>, mark::<5>, mark::<6>, mark::<7>, mark::<8>, mark::<9>, mark::<10>, mark::<11>, mark::<12>, mark::<13>, mark::<14>, mark::<15>];
pub fn is_cd(d: &ComponentDescriptor, i: usize) -> bool {
    if d.component_type_id().into_u16() != IDS[i] || d.size() != (i * 3) as u16 || d.align() != 1 << (i % 5) {
        return false;
    }
    let mut b = 0xAAu8;
    unsafe { (d.fns.drop_handler)(&mut b, 0x40) };
    b == i as u8 ^ 0x40
}
/// Sixteen identifiers, not in ascending order, around the byte and sign boundaries.
pub const IDS: [u16; 16] = [300, 7, 0, 0xFFFE, 256, 255, 0x1234, 0x00FE, 0x0101, 0x1001, 1, 0x0100 + 0xFF, 0x7FFF, 0x8000, 0x0002, 0x2000];
pub fn cd(i: usize) -> ComponentDescriptor {
    ComponentDescriptor::new(ComponentTypeId::from_u16(IDS[i]), (i * 3) as u16, 1 << (i % 5), MARKS[i])
}
/// The members of the mask in ascending identifier order.
pub fn sorted(m: u32) -> Vec<usize> {
    let mut v: Vec<usize> = (0..16).filter(|i| m >> i & 1 == 1).collect();
    v.sort_by_key(|i| IDS[*i]);
    v
}
/// The difference between a descriptor and the set it should denote.
pub fn diff(d: &ArchetypeDescriptor, m: u32) -> Option<String> {
    let want = sorted(m);
    if d.len() as usize != want.len() || d.components().len() != want.len() || !d.components().iter().zip(&want).all(|(c, i)| is_cd(c, *i)) {
        let f = |c: &ComponentDescriptor| (c.component_type_id().into_u16(), c.size(), c.align());
        return Some(format!("lists (id, size, align) {:x?}, expected {:x?} (or the drop handlers are not those given)", d.components().iter().map(f).collect::<Vec<_>>(), want.iter().map(|i| f(&cd(*i))).collect::<Vec<_>>()));
    }
    if !d.is_valid() {
        return Some("is not valid".into());
    }
    None
}
/// Built by adding the members in ascending order.
pub fn built(m: u32) -> Option<ArchetypeDescriptor> {
    let v = sorted(m);
    let mut d: ArchetypeDescriptor = cd(v[0]).into();
    for i in &v[1..] {
        d = d.add_component(&cd(*i))?;
    }
    Some(d)
}
fn names_of(m: u32) -> String {
    format!("{:x?}", sorted(m).iter().map(|i| IDS[*i]).collect::<Vec<_>>())
}

fn explore21(cx: &Cx) {
    let mut v: Vec<Vec<u64>> = vec![];
    for b in 0..256u64 {
        v.push(vec![C21, 0, b]); // add/remove on all subsets of 16
    }
    let n = if cx.thorough() { 12 } else { 10 };
    for m in 1..1u64 << n {
        v.push(vec![C21, 1, m, n]); // containment of all pairs
    }
    for m in 1..128u64 {
        v.push(vec![C21, 2, m]); // every order of adding, every order of removing
    }
    for k in 1..=14u64 {
        for r in 0..8 {
            v.push(vec![C21, 3, k, r]); // group descriptors
        }
    }
    for b in 0..64u64 {
        v.push(vec![C21, 4, b]); // has_component over the 14 static kinds
    }
    let clashes = clashes();
    for i in 0..clashes.len() as u64 {
        v.push(vec![C21, 5, i]); // sets sharing their identifier
    }
    cx.count("pairs of sets with equal identifiers", clashes.len() as u64);
    cx.par(v.len(), |i| {
        cx.case(&v[i], || run21(cx.tier, &v[i]));
        if i % 307 == 9 {
            cx.sample(&v[i]);
        }
    });
    let sets = 65535 - 17;
    let pairs = ((1u64 << n) - 1) * ((1u64 << n) - 1);
    cx.count("sets with every component added and removed", sets);
    cx.count("pairs of sets compared for inclusion and exclusion", pairs);
    cx.states(sets + (1 << n));
    cx.transitions(sets * 32 + pairs * 2);
    cx.note(format!("all {sets} subsets (1..14 of 16 identifiers) x 16 identifiers; all pairs of subsets of {n}; all orders of building and dismantling subsets of 7 up to size 6; all permutations of up to {} elements through ComponentGroupDescriptor::new, rotations and reversals up to 14; all subsets of 14 component types for has_component; for every pair of sets of one or two of 1000 or three of 160 components sharing an archetype identifier: all subsets of their union and one more, pairwise", if cx.thorough() { 8 } else { 7 }));
}

fn check_add(m: u32) -> Option<String> {
    let d = match built(m) {
        Some(d) => d,
        None => return Some(format!("adding the members of {} one by one was refused", names_of(m))),
    };
    if let Some(x) = diff(&d, m) {
        return Some(format!("{} built by adding in ascending order {x}", names_of(m)));
    }
    let n = m.count_ones();
    for i in 0..16 {
        let has = m >> i & 1 == 1;
        match d.add_component(&cd(i)) {
            None if has || n == 14 => {}
            Some(x) if !has && n < 14 => {
                let y = m | 1 << i;
                if let Some(e) = diff(&x, y) {
                    return Some(format!("{} plus {:x} {e}", names_of(m), IDS[i]));
                }
                if built(y).map(|z| z.archetype_id()) != Some(x.archetype_id()) {
                    return Some(format!("{} plus {:x} has another identifier than the same set built otherwise", names_of(m), IDS[i]));
                }
                // and back
                match x.remove_component(cd(i).component_type_id()) {
                    Some(z) => {
                        if diff(&z, m).is_some() || z.archetype_id() != d.archetype_id() {
                            return Some(format!("{} plus and minus {:x} is not the same set again", names_of(m), IDS[i]));
                        }
                        // what was removed can be added again, and something else too
                        for j in [i, (i + 5) % 16] {
                            let yy = m | 1 << j;
                            let r = z.add_component(&cd(j));
                            if (m >> j & 1 == 1) != r.is_none() {
                                return Some(format!("{} plus and minus {:x}: adding {:x} is decided wrongly", names_of(m), IDS[i], IDS[j]));
                            }
                            if let Some(r) = r {
                                if diff(&r, yy).is_some() || built(yy).map(|z| z.archetype_id()) != Some(r.archetype_id()) {
                                    return Some(format!("{} plus and minus {:x} plus {:x} is wrong", names_of(m), IDS[i], IDS[j]));
                                }
                            }
                        }
                    }
                    None => return Some(format!("{:x} cannot be removed from {} plus {0:x}", IDS[i], names_of(m))),
                }
            }
            r => return Some(format!("{} plus {:x} {}", names_of(m), IDS[i], if r.is_some() { "is accepted" } else { "is refused" })),
        }
        match d.remove_component(cd(i).component_type_id()) {
            None if !has || n == 1 => {}
            Some(x) if has && n > 1 => {
                let y = m & !(1 << i);
                if let Some(e) = diff(&x, y) {
                    return Some(format!("{} minus {:x} {e}", names_of(m), IDS[i]));
                }
                if built(y).map(|z| z.archetype_id()) != Some(x.archetype_id()) {
                    return Some(format!("{} minus {:x} has another identifier than the same set built otherwise", names_of(m), IDS[i]));
                }
            }
            r => return Some(format!("{} minus {:x} {}", names_of(m), IDS[i], if r.is_some() { "is accepted" } else { "is refused" })),
        }
    }
    None
}

pub fn perms(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    let mut a: Vec<usize> = (0..n).collect();
    let mut c = vec![0; n];
    out.push(a.clone());
    let mut i = 0;
    while i < n {
        if c[i] < i {
            a.swap(if i % 2 == 0 { 0 } else { c[i] }, i);
            out.push(a.clone());
            c[i] += 1;
            i = 0;
        } else {
            c[i] = 0;
            i += 1;
        }
    }
    out
}

fn group_case<const N: usize>(order: &[usize]) -> Option<String> {
    let a: [ComponentDescriptor; N] = std::array::from_fn(|j| cd(order[j]));
    let m: u32 = order.iter().fold(0, |m, i| m | 1 << i);
    let d = ComponentGroupDescriptor::new(&a);
    let nm = || format!("the group {:x?}", order.iter().map(|i| IDS[*i]).collect::<Vec<_>>());
    if !d.is_valid() || d.len() as usize != N {
        return Some(format!("{} is rejected", nm()));
    }
    if let Some(e) = diff(d.archetype(), m) {
        return Some(format!("{} {e}", nm()));
    }
    if let Some(b) = built(m) {
        if b.archetype_id() != d.archetype().archetype_id() {
            return Some(format!("{} has another identifier than the same set built by adding", nm()));
        }
    }
    let s = sorted(m);
    for i in 0..N {
        let u = d.unsorted_to_sorted(i as u8) as usize;
        let v = d.sorted_to_unsorted(i as u8) as usize;
        if u >= N || s[u] != order[i] || v >= N || order[v] != s[i] {
            return Some(format!("{}: mappings of position {i} are {u} and {v}", nm()));
        }
    }
    None
}
fn group_any(order: &[usize]) -> Option<String> {
    macro_rules! go { ($($n:literal),*) => { match order.len() { $($n => group_case::<$n>(order),)* _ => None } } }
    go!(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14)
}
fn dup_any(order: &[usize]) -> bool {
    macro_rules! go { ($($n:literal),*) => { match order.len() { $($n => { let a: [ComponentDescriptor; $n] = std::array::from_fn(|j| cd(order[j])); let d = ComponentGroupDescriptor::new::<$n>(&a); d.is_valid() || d.len() != 0 })* _ => false } } }
    go!(0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16)
}

fn run21(tier: Tier, w: &[Word]) -> Vec<Fail> {
    match w[1] {
        0 => {
            for lo in 0..256u32 {
                let m = (w[2] as u32) << 8 | lo;
                if m == 0 || m.count_ones() > 14 {
                    continue;
                }
                if let Some(e) = check_add(m) {
                    return bad(21, e);
                }
            }
        }
        1 => {
            // members chosen among all sixteen positions
            let n = w[3] as u32;
            let spread = |x: u32| (0..n).filter(|i| x >> i & 1 == 1).fold(0u32, |m, i| m | 1 << (i * 5 % 16));
            let a = spread(w[2] as u32);
            let Some(da) = built(a) else { return bad(21, format!("{} cannot be built", names_of(a))) };
            for y in 1..1u32 << n {
                let b = spread(y);
                let Some(db) = built_cached(b) else { return bad(21, format!("{} cannot be built", names_of(b))) };
                let (c, x) = (da.contains_subset(db), da.excludes_subset(db));
                if c != (a & b == b) {
                    return bad(21, format!("{} contains_subset {} is {c}", names_of(a), names_of(b)));
                }
                if x != (a & b == 0) {
                    return bad(21, format!("{} excludes_subset {} is {x}", names_of(a), names_of(b)));
                }
            }
        }
        2 => {
            let m = w[2] as u32;
            let el: Vec<usize> = (0..7).filter(|i| m >> i & 1 == 1).map(|i| (i * 7 + 3) % 16).collect();
            if el.len() == 7 {
                return vec![];
            }
            let full: u32 = el.iter().fold(0, |a, i| a | 1 << i);
            let id = built(full).map(|d| d.archetype_id());
            for o in perms(el.len()) {
                let mut d: ArchetypeDescriptor = (&cd(el[o[0]])).into();
                for j in &o[1..] {
                    match d.add_component(&cd(el[*j])) {
                        Some(x) => d = x,
                        None => return bad(21, format!("adding {:x} while building {} was refused", IDS[el[*j]], names_of(full))),
                    }
                }
                if diff(&d, full).is_some() || Some(d.archetype_id()) != id {
                    return bad(21, format!("{} built in the order {:x?} differs", names_of(full), o.iter().map(|j| IDS[el[*j]]).collect::<Vec<_>>()));
                }
                // dismantle in the same order
                let mut left = full;
                for j in &o[..o.len() - 1] {
                    match d.remove_component(cd(el[*j]).component_type_id()) {
                        Some(x) => d = x,
                        None => return bad(21, format!("removing {:x} from {} was refused", IDS[el[*j]], names_of(left))),
                    }
                    left &= !(1 << el[*j]);
                    if diff(&d, left).is_some() || built(left).map(|x| x.archetype_id()) != Some(d.archetype_id()) {
                        return bad(21, format!("{} reached by removing differs from the set built by adding", names_of(left)));
                    }
                }
            }
        }
        3 => {
            let k = w[2] as usize;
            let r = w[3] as usize;
            let base: Vec<usize> = (0..k).map(|i| (i * 3 + r * 2) % 16).collect();
            let max = if tier == Tier::Thorough { 8 } else { 7 };
            let mut orders: Vec<Vec<usize>> = vec![];
            if k <= max {
                orders = perms(k).into_iter().map(|o| o.into_iter().map(|i| base[i]).collect()).collect();
            } else {
                for rot in 0..k {
                    let mut o = base.clone();
                    o.rotate_left(rot);
                    orders.push(o.clone());
                    o.reverse();
                    orders.push(o);
                }
                for i in 0..k {
                    for j in 0..i {
                        let mut o = sorted(base.iter().fold(0, |m, i| m | 1 << i));
                        o.swap(i, j);
                        orders.push(o.clone());
                        o.rotate_left(1);
                        orders.push(o);
                    }
                }
            }
            for o in &orders {
                if let Some(e) = group_any(o) {
                    return bad(21, e);
                }
            }
            // one element repeated, at every pair of positions
            for i in 0..k {
                for j in 0..i {
                    let mut o = base.clone();
                    o[i] = o[j];
                    if dup_any(&o) {
                        return bad(21, format!("a group of {k} with equal elements at {j} and {i} is accepted"));
                    }
                }
            }
            if dup_any(&[]) || dup_any(&(0..15).collect::<Vec<_>>()) || dup_any(&(0..16).collect::<Vec<_>>()) {
                return bad(21, "a group of 0, 15 or 16 components is accepted".into());
            }
        }
        5 => {
            let Some((a, b)) = clashes().get(w[2] as usize) else { return vec![] };
            let mut u: Vec<u16> = a.iter().chain(b).copied().collect();
            u.push(0xFFF0);
            u.sort();
            u.dedup();
            let at = |i: usize| ComponentDescriptor::new(ComponentTypeId::from_u16(u[i]), 8 + i as u16, 8, MARKS[i]);
            let build = |m: usize, rev: bool| {
                let mut ix: Vec<usize> = (0..u.len()).filter(|i| m >> i & 1 == 1).collect();
                if rev {
                    ix.reverse();
                }
                let mut d: ArchetypeDescriptor = at(ix[0]).into();
                for i in &ix[1..] {
                    d = d.add_component(&at(*i))?;
                }
                Some(d)
            };
            let nm = |m: usize| format!("{:x?}", (0..u.len()).filter(|i| m >> i & 1 == 1).map(|i| u[i]).collect::<Vec<_>>());
            let lists = |d: &ArchetypeDescriptor, m: usize| d.components().iter().map(|c| c.component_type_id().into_u16()).eq((0..u.len()).filter(|i| m >> i & 1 == 1).map(|i| u[i]));
            let mut ds = vec![];
            for m in 1..1usize << u.len() {
                match (build(m, false), build(m, true)) {
                    (Some(x), Some(y)) if lists(&x, m) && lists(&y, m) && x.archetype_id() == y.archetype_id() => ds.push((m, x)),
                    _ => return bad(21, format!("{} built by adding in ascending and in descending order differs from the set", nm(m))),
                }
            }
            for (m, d) in &ds {
                for i in 0..u.len() {
                    let has = m >> i & 1 == 1;
                    match d.add_component(&at(i)) {
                        None if has => {}
                        Some(x) if !has && lists(&x, m | 1 << i) => {}
                        _ => return bad(21, format!("{} plus {:x} is wrong", nm(*m), u[i])),
                    }
                    match d.remove_component(at(i).component_type_id()) {
                        None if !has || m.count_ones() == 1 => {}
                        Some(x) if has && m.count_ones() > 1 && lists(&x, m & !(1 << i)) => {}
                        _ => return bad(21, format!("{} minus {:x} is wrong", nm(*m), u[i])),
                    }
                }
                for (n, e) in &ds {
                    let (c, x) = (d.contains_subset(e), d.excludes_subset(e));
                    if c != (m & n == *n) {
                        return bad(21, format!("{} contains_subset {} is {c} (identifiers {:x} and {:x})", nm(*m), nm(*n), d.archetype_id().into_u32(), e.archetype_id().into_u32()));
                    }
                    if x != (m & n == 0) {
                        return bad(21, format!("{} excludes_subset {} is {x} (identifiers {:x} and {:x})", nm(*m), nm(*n), d.archetype_id().into_u32(), e.archetype_id().into_u32()));
                    }
                }
            }
        }
        _ => {
            let t = tables();
            for lo in 0..256u32 {
                let m = (w[2] as u32) << 8 | lo;
                if m == 0 {
                    continue;
                }
                let ks: Vec<usize> = (0..14).filter(|i| m >> i & 1 == 1).collect();
                let mut d: ArchetypeDescriptor = (t.k[ks[0]].desc)().into();
                for k in &ks[1..] {
                    match d.add_component(&(t.k[*k].desc)()) {
                        Some(x) => d = x,
                        None => return bad(21, format!("adding {} was refused", kinds()[*k].name)),
                    }
                }
                match crate::world::desc_mask(&d) {
                    Ok(x) if x == m => {}
                    Ok(x) => return bad(21, format!("descriptor of {} says {}", crate::world::mask_name(m), crate::world::mask_name(x))),
                    Err(e) => return bad(21, format!("descriptor of {}: {e}", crate::world::mask_name(m))),
                }
                // ascending identifiers, own layout and destructor
                let c = d.components();
                for i in 0..c.len() {
                    let k = kind_of_id(c[i].component_type_id().into_u16()).unwrap() as usize;
                    if (i > 0 && c[i - 1].component_type_id() >= c[i].component_type_id()) || c[i] != (t.k[k].desc)() {
                        return bad(21, format!("descriptor of {} lists {} wrongly", crate::world::mask_name(m), kinds()[k].name));
                    }
                }
                if let Some(g) = t.of_mask(m) {
                    if (t.g[g].desc)().archetype().archetype_id() != d.archetype_id() {
                        return bad(21, format!("{} as a tuple and built by adding have different identifiers", crate::world::mask_name(m)));
                    }
                }
            }
        }
    }
    vec![]
}
/// Pairs of different sets to which the crate gives the same identifier: one of 1000 components, two of 1000
/// or three of 160.
fn clashes() -> &'static Vec<(Vec<u16>, Vec<u16>)> {
    use std::sync::OnceLock;
    static C: OnceLock<Vec<(Vec<u16>, Vec<u16>)>> = OnceLock::new();
    C.get_or_init(|| {
        let id = |a: u16| a.wrapping_mul(40_503); // spread over all identifiers
        let one = |a: u16| ComponentDescriptor::new(ComponentTypeId::from_u16(id(a)), 4, 4, MARKS[0]);
        let mut all: Vec<(u32, [u16; 3], u8)> = vec![];
        for a in 0..1000u16 {
            let d: ArchetypeDescriptor = one(a).into();
            all.push((d.archetype_id().into_u32(), [a, 0, 0], 1));
            for b in a + 1..1000 {
                let Some(e) = d.add_component(&one(b)) else { continue };
                all.push((e.archetype_id().into_u32(), [a, b, 0], 2));
                if b < 160 {
                    for c in b + 1..160 {
                        if let Some(f) = e.add_component(&one(c)) {
                            all.push((f.archetype_id().into_u32(), [a, b, c], 3));
                        }
                    }
                }
            }
        }
        all.sort();
        let v = |x: &(u32, [u16; 3], u8)| x.1[..x.2 as usize].iter().map(|a| id(*a)).collect::<Vec<u16>>();
        all.windows(2).filter(|w| w[0].0 == w[1].0).take(2000).map(|w| (v(&w[0]), v(&w[1]))).collect()
    })
}
fn built_cached(m: u32) -> Option<&'static ArchetypeDescriptor> {
    use std::sync::OnceLock;
    static C: OnceLock<Vec<OnceLock<Option<ArchetypeDescriptor>>>> = OnceLock::new();
    C.get_or_init(|| (0..65536).map(|_| OnceLock::new()).collect())[m as usize].get_or_init(|| built(m)).as_ref()
}
fn show21(_: Tier, w: &[Word]) -> String {
    match w[1] {
        0 => format!("all subsets of 16 identifiers with high byte {:#x}", w[2]),
        1 => format!("subset {:b} against every subset of {}", w[2], w[3]),
        2 => format!("every order of building and dismantling subset {:b}", w[2]),
        3 => format!("groups of {} (universe rotation {})", w[2], w[3]),
        5 => format!("sets with equal identifiers: {:x?}", clashes().get(w[2] as usize)),
        _ => format!("has_component on subsets of the 14 types, block {}", w[2]),
    }
}
