"""P28: enumerates client programs that obtain something from a registry, do something else, and use what they got;
the compiler must refuse those that could observe a dangling or aliased reference, and accept the others."""
import itertools, json, os, time
import programs

BORROW = {"E0499", "E0500", "E0501", "E0504", "E0524", "E0502", "E0503", "E0505", "E0506", "E0515", "E0597", "E0716", "E0521", "E0594", "E0596", "E0310", "E0309", "E0277", "E0373", "E0382", "E0384", "E0478", "E0491", "E0621", "E0700", "E0713", "E0712", "lifetime"}

PRELUDE = """#![allow(warnings)]
extern crate shard_ecs;
use shard_ecs::*;
use shard_ecs::archetype_registry::ArchetypeRegistry;
use shard_ecs::entity_registry::*;
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::component_group::ComponentGroup;
pub struct A(pub String); pub struct B(pub u8); pub struct C(pub u64); pub struct D;
impl Component for A { const NAME: &'static str = "A"; }
impl Component for B { const NAME: &'static str = "B"; }
impl Component for C { const NAME: &'static str = "C"; }
impl Component for D { const NAME: &'static str = "D"; }
pub fn a() -> A { A(String::new()) }
pub fn touch<T: ?Sized>(_: &T) {}
pub fn pred(_: &ArchetypeDescriptor) -> bool { true }
macro_rules! comps { ($($n:ident),*) => { $(pub struct $n(pub u8); impl Component for $n { const NAME: &'static str = stringify!($n); })* } }
comps!(E1, E2, E3, E4, E5, E6, E7, E8, E9, E10, E11, E12, E13, E14);
pub type G14 = (E1, E2, E3, E4, E5, E6, E7, E8, E9, E10, E11, E12, E13, E14);
"""

# (name, how the receiver is used, expression, whether the result keeps the receiver borrowed)
SH, MU, OWN = "shared", "exclusive", "moved"


def registry_ops():
    groups = ["A", "(A, B)", "G14"]
    r = []
    for g in groups:
        r.append((f"get_components::<{g}>", SH, f"r.get_components::<{g}>(e)", True))
        r.append((f"get_components_mut::<{g}>", MU, f"r.get_components_mut::<{g}>(e)", True))
        r.append((f"has_components::<{g}>", SH, f"r.has_components::<{g}>(e)", False))
        r.append((f"remove_entity::<{g}>", MU, f"r.remove_entity::<{g}>(e)", False))
    r += [("get_component", SH, "r.get_component::<A>(e)", True), ("get_component_mut", MU, "r.get_component_mut::<A>(e)", True),
          ("has_component", SH, "r.has_component::<A>(e)", False), ("create_entity", MU, "r.create_entity((a(), B(1)))", False),
          ("destroy_entity", MU, "r.destroy_entity(e)", False), ("add_component", MU, "r.add_component(e, C(1))", False),
          ("remove_component", MU, "r.remove_component::<B>(e)", False),
          ("iter_entities", SH, "r.iter_entities()", True), ("first of iter_entities", SH, "r.iter_entities().next()", False),
          ("collected iter_entities", SH, "r.iter_entities().collect::<Vec<Entity>>()", False)]
    for g in ("A", "(B, A)"):
        for ent in ("", "entity_"):
            for fil in ("", "filtered_"):
                for m in ("", "_mut"):
                    f = f"iter_{fil}{ent}components_matching{m}"
                    call = f"r.{f}::<{g}>()" if not fil else f"r.{f}::<{g}, _>(pred)"
                    mode = MU if m else SH
                    r.append((f"{f}::<{g}>", mode, call, True))
                    r.append((f"first of {f}::<{g}>", mode, f"{call}.next()", True))
                    if g == "A":
                        r.append((f"all of {f}::<{g}>", mode, f"{call}.collect::<Vec<_>>()", True))
                        r.append((f"length of {f}::<{g}>", mode, f"{call}.count()", False))
    r += [("drop", OWN, "drop(r)", False), ("moving into a closure", OWN, "(move || { touch(&r); })()", False), ("moving into a thread", OWN, "std::thread::spawn(move || { touch(&r); })", False),
          ("replacing", MU, "core::mem::replace(&mut r, Registry::default())", True and False), ("assigning", MU, "r = Registry::default()", False),
          ("borrowing", SH, "&r", True), ("borrowing exclusively", MU, "&mut r", True)]
    return r


def archetype_ops():
    r = [("descriptor", SH, "r.descriptor()", True), ("components of the descriptor", SH, "r.descriptor().components()", True), ("entities", SH, "r.entities()", True), ("entities_mut", MU, "r.entities_mut()", True), ("len", SH, "r.len()", False),
         ("get_component_unchecked", SH, "r.get_component_unchecked::<A>(0)", True), ("get_component_unchecked_mut", MU, "r.get_component_unchecked_mut::<A>(0)", True),
         ("push_entity_unchecked", MU, "r.push_entity_unchecked(e, (a(), B(1)))", False), ("swap_remove_unchecked", MU, "r.swap_remove_unchecked::<(A, B)>(0)", False),
         ("swap_drop_unchecked", MU, "r.swap_drop_unchecked(0)", False), ("drop", OWN, "drop(r)", False)]
    for f in ("get_fuzzy_components_unchecked", "get_slices_unchecked_exact", "get_fuzzy_slices_unchecked", "get_entity_fuzzy_slices_unchecked"):
        for g in ("A", "(B, A)"):
            fm = f + "_mut"
            x = "0" if "components" in f else ""
            r.append((f"{f}::<{g}>", SH, f"r.{f}::<{g}>({x})", True))
            r.append((f"{fm}::<{g}>", MU, f"r.{fm}::<{g}>({x})", True))
    return r


def store_ops():
    ds = "&<(A, B) as ComponentGroup>::DESCRIPTOR.archetype()"
    return [("find_archetype", SH, f"r.find_archetype({ds})", True), ("find_or_create_archetype", MU, f"r.find_or_create_archetype({ds})", True),
            ("find_or_create_archetype_adding_component", MU, "r.find_or_create_archetype_adding_component(0, &<C as Component>::DESCRIPTOR)", True),
            ("get_unchecked", SH, "r.get_unchecked(0)", True), ("get_unchecked_mut", MU, "r.get_unchecked_mut(0)", True),
            ("iter_components_matching", SH, "r.iter_components_matching::<A>()", True), ("first of iter_components_matching", SH, "r.iter_components_matching::<A>().next()", True),
            ("iter_entity_components_matching_mut", MU, "r.iter_entity_components_matching_mut::<A>()", True), ("first of iter_components_matching_mut", MU, "r.iter_components_matching_mut::<A>().next()", True),
            ("drop", OWN, "drop(r)", False)]


def table_ops():
    i = "IndexInArchetype::new(0).unwrap(), ArchetypeIndex::new(0).unwrap()"
    return [("entity_entry", SH, "r.entity_entry(e)", True), ("entity_entry_mut", MU, "r.entity_entry_mut(e)", True), ("create_entity", MU, f"r.create_entity({i})", False),
            ("destroy_entity", MU, "r.destroy_entity(e)", False), ("iter", SH, "r.iter()", True), ("first of iter", SH, "r.iter().next()", False), ("can_register_new_entity", SH, "r.can_register_new_entity()", False),
            ("drop", OWN, "drop(r)", False)]


TYPES = [("Registry", "Registry", registry_ops, False), ("Archetype", "Archetype", archetype_ops, True), ("ArchetypeRegistry", "ArchetypeRegistry", store_ops, True), ("EntityRegistry", "EntityRegistry", table_ops, False)]


def clash(p, q):
    """p's result is used after q."""
    if not p[3]:
        return p[1] == OWN
    return p[1] != SH or q[1] != SH


def sequences(tier):
    for tn, ty, ops, uns in TYPES:
        o = ops()
        wrap = (lambda s: "unsafe { " + s + " }") if uns else (lambda s: s)
        head = f"(mut r: {ty}, e: Entity)"
        for p in o:
            if p[1] != OWN:
                yield f"{tn}: {p[0]}; use it", True, head + " { " + wrap(f"let mut h = {p[2]}; touch(&h);") + " }"
                yield f"{tn}: {p[0]}; drop the {tn}; use it", not p[3], head + " { " + wrap(f"let mut h = {p[2]}; drop(r); touch(&h);") + " }"
                yield f"{tn}: {p[0]} on a {tn} that ends first; use it", not p[3], f"(e: Entity, mk: fn() -> {ty}) {{ " + wrap(f"let mut h; {{ let mut r = mk(); h = {p[2]}; touch(&h); }} touch(&h);") + " }"
                # the lifetime of the result is that of the borrow
                rec = "&'a mut " if p[1] == MU else "&'a "
                if p[3] and p[0] not in ("borrowing", "borrowing exclusively"):
                    # reborrow of the parameter itself
                    yield f"{tn}: {p[0]} from a short borrow, kept for a long one", False, f"<'a, 'b>(r: {rec}{ty}, e: Entity, keep: &mut Vec<Box<dyn core::any::Any + 'b>>) {{ " + wrap(f"fn same<T>(_: &dyn Fn(T), _: T) {{}} let h = {p[2]}; fn long<'b, T: 'b>(_: &Vec<Box<dyn core::any::Any + 'b>>, _: T) {{}} long(keep, h);") + " }"
                    yield f"{tn}: {p[0]} from a borrow, kept as long as it", True, f"<'a>(r: {rec}{ty}, e: Entity, keep: &mut Vec<Box<dyn core::any::Any + 'a>>) {{ " + wrap(f"let h = {p[2]}; fn long<'b, T: 'b>(_: &Vec<Box<dyn core::any::Any + 'b>>, _: T) {{}} long(keep, h);") + " }"
                    yield f"{tn}: {p[0]} from a borrow, kept forever", False, f"<'a>(r: {rec}{ty}, e: Entity) {{ " + wrap(f"let h = {p[2]}; fn forever<T: 'static>(_: T) {{}} forever(h);") + " }"
        for p in o:
            for q in o:
                if p[1] == OWN:
                    if tn == "Registry":
                        # after the registry is gone nothing can be done with it (assigning brings it back)
                        yield f"{tn}: {p[0]}; {q[0]}", q[0] == "assigning", head + " { " + wrap(f"{p[2]}; {q[2]};") + " }"
                    continue
                if q[1] != OWN or tn == "Registry":
                    yield f"{tn}: {p[0]}; {q[0]}; use the first", not clash(p, q), head + " { " + wrap(f"let mut h = {p[2]}; {q[2]}; touch(&h);") + " }"
                    yield f"{tn}: {p[0]}; use it; {q[0]}", True, head + " { " + wrap(f"{{ let mut h = {p[2]}; touch(&h); }} {q[2]};") + " }"
                if q[1] != OWN and p[0] != "assigning" and q[0] != "assigning":
                    yield f"{tn}: {p[0]}; {q[0]}; use both", not clash(p, q), head + " { " + wrap(f"let mut h = {p[2]}; let mut k = {q[2]}; touch(&k); touch(&h);") + " }"
        if tn == "Registry":
            for p in o:
                if p[3]:
                    yield f"in a loop: {p[0]}; the previous result is used", p[1] == SH, head + f" {{ let mut prev = None; for _ in 0..2 {{ let h = {p[2]}; touch(&prev); prev = Some(h); }} touch(&prev); }}"
                    yield f"in a closure: {p[0]}; then destroy; then call the closure", False, head + f" {{ let c = || {{ let h = {p[2]}; touch(&h); }}; r.destroy_entity(e); let mut c = c; c(); }}"
        if tier == "thorough" and tn == "Registry":
            held = [p for p in o if p[3]]
            for p in held:
                for q, s in itertools.product(o, o):
                    if OWN in (q[1], s[1]) and q[1] == OWN:
                        continue
                    yield f"{tn}: {p[0]}; {q[0]}; {s[0]}; use the first", not (clash(p, q) or clash(p, s)), head + f" {{ let mut h = {p[2]}; {q[2]}; {s[2]}; touch(&h); }}"


def special():
    """(label, accepted, item text with § for the unit's number)"""
    fn = lambda s: "fn p§" + s
    # which types can be components
    ok = ["u8", "String", "std::sync::Arc<u8>", "std::sync::Mutex<u8>", "&'static str", "fn()", "Vec<Box<dyn Fn() + Send + Sync>>", "core::sync::atomic::AtomicU8", "()", "[u64; 100]"]
    no = ["std::rc::Rc<u8>", "core::cell::Cell<u8>", "core::cell::RefCell<u8>", "*const u8", "*mut u8", "std::rc::Weak<u8>", "Box<dyn Fn()>", "Box<dyn Fn() + Send>", "Box<dyn Fn() + Sync>", "std::sync::mpsc::Receiver<u8>",
          "core::cell::UnsafeCell<u8>", "core::cell::OnceCell<u8>", "std::sync::MutexGuard<'static, u8>", "std::sync::mpsc::Receiver<String>", "core::ptr::NonNull<u8>", "Vec<std::rc::Rc<u8>>", "Option<core::cell::Cell<u8>>"]
    for t in ok:
        yield f"a component holding {t}", True, f"pub struct S§({t}); impl Component for S§ {{ const NAME: &'static str = \"S\"; }}"
    for t in no:
        yield f"a component holding {t}, which threads must not share", False, f"pub struct S§({t}); impl Component for S§ {{ const NAME: &'static str = \"S\"; }}"
    yield "a component holding a borrow", False, "pub struct S§<'a>(&'a u8); impl<'a> Component for S§<'a> { const NAME: &'static str = \"S\"; }"
    yield "a component of unknown thread safety", False, "pub struct S§<T>(T); impl<T: 'static> Component for S§<T> { const NAME: &'static str = \"S\"; }"
    yield "a component of unknown thread safety (only Send)", False, "pub struct S§<T>(T); impl<T: 'static + Send> Component for S§<T> { const NAME: &'static str = \"S\"; }"
    yield "a component of unknown thread safety (only Sync)", False, "pub struct S§<T>(T); impl<T: 'static + Sync> Component for S§<T> { const NAME: &'static str = \"S\"; }"
    yield "a component of unknown lifetime", False, "pub struct S§<T>(T); impl<T: Send + Sync> Component for S§<T> { const NAME: &'static str = \"S\"; }"
    yield "a component of unknown size", False, "pub struct S§([u8]); impl Component for S§ { const NAME: &'static str = \"S\"; }"
    yield "a group implemented by a client", False, "pub struct S§(u8); unsafe impl Send for S§ {} impl shard_ecs::component_group::ComponentGroup for S§ { const DESCRIPTOR: shard_ecs::component_group_descriptor::ComponentGroupDescriptor = <A as ComponentGroup>::DESCRIPTOR; }"
    for g in ("(A, &'static u8)", "(A, (B, C))", "(A, u8)", "&'static A", "[A; 2]", "Vec<A>", "Box<A>", "Option<A>"):
        yield f"a group {g}", False, f"fn p§(mut r: Registry, e: Entity, g: {g}) {{ r.create_entity(g); }}"
    for n in range(1, 15):
        g = ", ".join(f"E{i + 1}" for i in range(n))
        g = g if n == 1 else f"({g})"
        yield f"a group of {n}", True, f"fn p§(mut r: Registry, e: Entity, g: {g}) {{ r.create_entity(g); touch(&r.get_components::<{g}>(e)); touch(&r.get_components_mut::<{g}>(e)); r.remove_entity::<{g}>(e); }}"
    # what can be done through results
    for x, acc in (("r.get_component::<B>(e).unwrap().0 = 1", False), ("r.get_component_mut::<B>(e).unwrap().0 = 1", True), ("r.get_components::<(A, B)>(e).unwrap().1.0 = 1", False), ("r.get_components_mut::<(A, B)>(e).unwrap().1.0 = 1", True),
                   ("for s in r.iter_components_matching::<B>() { s[0].0 = 1; }", False), ("for s in r.iter_components_matching_mut::<B>() { s[0].0 = 1; }", True),
                   ("for (es, s) in r.iter_entity_components_matching::<B>() { s[0].0 = 1; }", False), ("for (es, s) in r.iter_entity_components_matching_mut::<B>() { s[0].0 = 1; touch(es); }", True),
                   ("for (es, s) in r.iter_entity_components_matching_mut::<B>() { es[0] = e; }", False), ("for (es, s) in r.iter_entity_components_matching::<B>() { es[0] = e; }", False),
                   ("for (es, s) in r.iter_filtered_entity_components_matching_mut::<B, _>(pred) { es[0] = e; }", False), ("for (es, s) in r.iter_filtered_entity_components_matching_mut::<B, _>(pred) { s[0].0 = 1; }", True),
                   ("for s in r.iter_filtered_components_matching::<B, _>(pred) { s[0].0 = 1; }", False), ("for s in r.iter_filtered_components_matching_mut::<B, _>(pred) { s[0].0 = 1; }", True),
                   ("for (s, t) in r.iter_components_matching_mut::<(A, B)>() { core::mem::swap(&mut s[0], &mut a()); t[0].0 = 2; }", True),
                   ("let x = *r.get_component::<A>(e).unwrap();", False), ("let x = *r.get_component_mut::<A>(e).unwrap();", False),
                   ("let mut it = r.iter_components_matching_mut::<A>(); let s = it.next().unwrap(); let t = it.next().unwrap(); core::mem::swap(&mut s[0], &mut t[0]);", True),
                   ("let mut it = r.iter_components_matching_mut::<A>(); let s = it.next().unwrap(); drop(it); touch(s);", True),
                   ("let mut it = r.iter_components_matching_mut::<A>(); let s = it.next().unwrap(); r.destroy_entity(e); touch(s);", False),
                   ("let (s, t) = r.get_components_mut::<(A, B)>(e).unwrap(); r.destroy_entity(e); touch(t);", False),
                   ("let s = &r.get_component::<A>(e).unwrap().0; r.destroy_entity(e); touch(s);", False), ("let s = r.get_component::<A>(e).unwrap().0.clone(); r.destroy_entity(e); touch(&s);", True),
                   ("let s = &r.get_component::<A>(e).unwrap().0[..]; r.remove_component::<B>(e); touch(s);", False),
                   ("let q = &r; q.create_entity(a());", False), ("let q = &r; q.destroy_entity(e);", False), ("let q = &r; q.get_component_mut::<A>(e);", False), ("let q = &r; q.remove_component::<A>(e);", False), ("let q = &r; q.add_component(e, a());", False),
                   ("let q = &r; q.remove_entity::<A>(e);", False), ("let q = &r; q.get_components_mut::<A>(e);", False), ("let q = &r; touch(&q.iter_components_matching_mut::<A>().next());", False),
                   ("let q = &r; touch(&q.iter_entity_components_matching_mut::<A>().next());", False), ("let q = &r; touch(&q.iter_filtered_components_matching_mut::<A, _>(pred).next());", False),
                   ("let q = &r; touch(&q.iter_filtered_entity_components_matching_mut::<A, _>(pred).next());", False)):
        yield x, acc, fn("(mut r: Registry, e: Entity) { " + x + " }")
    # predicates
    for it in ("iter_filtered_components_matching", "iter_filtered_components_matching_mut", "iter_filtered_entity_components_matching", "iter_filtered_entity_components_matching_mut"):
        yield f"{it} with a predicate borrowing a local", True, fn(f"(mut r: Registry) {{ let v = vec![1u8]; let n = r.{it}::<A, _>(|_| v.len() > 0).count(); touch(&v); }}")
        yield f"{it} with a predicate borrowing a local that is changed", False, fn(f"(mut r: Registry) {{ let mut v = vec![1u8]; let mut it = r.{it}::<A, _>(|_| v.len() > 0); v.push(1); it.next(); }}")
        yield f"{it} with a predicate borrowing a local that is gone", False, fn(f"(mut r: Registry) {{ let mut it; {{ let v = vec![1u8]; it = r.{it}::<A, _>(|_| v.len() > 0); }} it.next(); }}")
        yield f"{it} with a predicate that keeps what it is shown", False, fn(f"(mut r: Registry) {{ let k = core::cell::Cell::new(None); r.{it}::<A, _>(|d: &ArchetypeDescriptor| {{ k.set(Some(d)); true }}).next(); }}")
        yield f"{it} with a predicate that uses the registry", "mut" not in it, fn(f"(mut r: Registry, e: Entity) {{ let n = r.{it}::<A, _>(|_| r.has_component::<A>(e)).count(); }}")
    # threads
    th = lambda s: fn("(mut r: Registry, e: Entity) { " + s + " }")
    yield "a registry moves to another thread", True, th("std::thread::spawn(move || { let mut r = r; r.create_entity(a()); });")
    yield "a borrowed registry in a thread that may outlive it", False, th("let q = &r; std::thread::spawn(move || { touch(&q.has_component::<A>(e)); });")
    yield "a registry read from two threads", True, th("std::thread::scope(|s| { s.spawn(|| { touch(&r.get_component::<A>(e)); }); s.spawn(|| { touch(&r.iter_components_matching::<A>().count()); }); });")
    yield "a registry read in one and changed in another thread", False, th("std::thread::scope(|s| { s.spawn(|| { touch(&r.get_component::<A>(e)); }); s.spawn(|| { r.destroy_entity(e); }); });")
    yield "a registry changed in two threads", False, th("std::thread::scope(|s| { s.spawn(|| { r.create_entity(a()); }); s.spawn(|| { r.destroy_entity(e); }); });")
    yield "a component read in another thread", True, th("let h = r.get_component::<A>(e); std::thread::scope(|s| { s.spawn(|| touch(&h)); s.spawn(|| touch(&h)); });")
    yield "a component changed in another thread", True, th("let h = r.get_component_mut::<A>(e).unwrap(); std::thread::scope(|s| { s.spawn(|| { h.0.clear(); }); });")
    yield "a component changed in two threads", False, th("let h = r.get_component_mut::<A>(e).unwrap(); std::thread::scope(|s| { s.spawn(|| { h.0.clear(); }); s.spawn(|| { h.0.clear(); }); });")
    yield "columns changed in several threads", True, th("std::thread::scope(|s| { for c in r.iter_components_matching_mut::<A>() { s.spawn(move || { c[0].0.clear(); }); } });")
    yield "an archetype read from two threads", True, fn("(r: Archetype) { std::thread::scope(|s| { s.spawn(|| { touch(r.entities()); }); s.spawn(|| { touch(r.entities()); }); }); }")
    yield "an entity's index is not a handle", False, fn("(mut r: Registry, e: Entity) { r.destroy_entity(e.index()); }")
    yield "a number is not a handle", False, fn("(mut r: Registry) { r.destroy_entity(0u32); }")


def code(rendered):
    i = rendered.find("error[")
    return rendered[i + 6:i + 11] if i >= 0 else ("lifetime" if ("lifetime" in rendered or "borrow" in rendered) else "?")


def main(tier, env, target, tree_hash, write_evidence, violation, known):
    t0 = time.time()
    libs = programs.Libs(env, target)
    libs.build(tree_hash)
    progs = [(l, acc, f"fn p§{t}") for l, acc, t in sequences(tier)]
    spec = list(special())
    units = lambda ps, base: [(base + i, t.replace("§", str(base + i))) for i, (_, _, t) in enumerate(ps)]
    jobs, special_jobs = [], set()
    n = 600 if tier == "quick" else 3000
    editions = ["2021"] if tier == "quick" else ["2018", "2021", "2024"]
    base = 0
    for ed in editions:
        # programs expected to be refused and to be accepted are compiled apart: fewer rounds
        for want in (True, False):
            ps = [p for p in progs if p[1] == want]
            for k in range(0, len(ps), n):
                jobs.append((ed, base, ps[k:k + n]))
                base += n
        for want in (True, False):
            ps = [p for p in spec if p[1] == want]
            jobs.append((ed, base, ps))
            special_jobs.add(base)
            base += n
    from concurrent.futures import ThreadPoolExecutor

    def one(job):
        ed, b, ps = job
        v = programs.accepted(libs, f"borrow{b}", PRELUDE, units(ps, b), ed)
        for e in (".rs", ".rmeta"):
            p = os.path.join(libs.dir, f"borrow{b}{e}")
            if os.path.exists(p):
                os.remove(p)
        return v
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    bad, unclear, acc, rej, samples = [], [], 0, 0, []
    codes = {}
    for (ed, b, ps), v in zip(jobs, res):
        for i, (l, want, t) in enumerate(ps):
            e = v[b + i]
            if e is None:
                acc += 1
            else:
                rej += 1
                codes[code(e)] = codes.get(code(e), 0) + 1
            if e is not None and code(e) not in BORROW and not (not want and b in special_jobs and code(e) in ("E0308", "E0046", "E0599", "E0507", "E0603")):
                unclear.append((l, t, e))
            elif (e is None) != want:
                bad.append((f"edition {ed}: {l}", t, e))
            elif i % 251 == 5 and sum(1 for s in samples if ("accepted" in s) == (e is None)) < 5 and not any(s.split(";")[0] == f"edition {ed}: {l}".split(";")[0] for s in samples):
                samples.append(f"edition {ed}: {l}: " + ("accepted" if e is None else "refused, " + code(e)) + "   " + t[:200])
    run = {"profile": "programs", "states": len(progs) + len(spec), "transitions": acc + rej, "executions": acc + rej, "wall_s": round(time.time() - t0, 1), "samples": samples,
           "cover": {"programs enumerated": acc + rej, "accepted": acc, "refused": rej} | {f"refused with {k}": v for k, v in codes.items()}, "notes": [f"{acc + rej} programs, editions {editions}"]}
    write_evidence("P28", tier, "model_checking", [run], time.time() - t0, 1 if bad else 0)
    if os.environ.get("BORROW_DEBUG"):
        for l, t, e in bad:
            print("BAD", l, "|", t, "|", (e or "")[:300])
    if bad:
        l, t, e = bad[0]
        violation("P28", {"property": "P28", "tier": tier, "profile": "programs", "cases": [], "message": f"{len(bad)} programs; first: " + ("the compiler accepts a program that uses a reference after the registry may have changed, or a type that must not be a component" if e is None else "the compiler refuses a harmless program:\n" + e), "history": l + "\n" + t,
                          "replay_cmd": "python3 check.py P28 " + tier})
        return 1
    if unclear:
        l, t, e = unclear[0]
        print(f"no answer: {len(unclear)} programs do not compile for a reason that has nothing to do with borrows:\n{l}\n{t}\n{e[:1500]}")
        return 2
    print(f"P28 programs={acc + rej} accepted={acc} refused={rej} {codes} wall={time.time() - t0:.1f}s")
    return 0
