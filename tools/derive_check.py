"""P25: enumerates type definitions (kind x fields x generics x where clauses x context x name x attributes x edition).
For each the hand-written implementation decides whether the type can be a component; if it can, the derived one must
compile too, and both must give the same name, identifier, descriptor and behaviour in a registry."""
import json, os, subprocess, sys, time
import programs

B = "::core::marker::Send + ::core::marker::Sync + 'static"
PH = "::core::marker::PhantomData"


class G:
    """Generics: declaration, the parameters as an implementation declares them, arguments, where clause, the field
    types that use the parameters, and instantiations (argument text, values of the usage fields)."""

    def __init__(self, label, decl="", impl=None, args="", where="", use=(), inst=(("", ()),)):
        self.label, self.decl, self.impl, self.args, self.where, self.use, self.inst = label, decl, decl if impl is None else impl, args, where, list(use), list(inst)


STR = '<::std::string::String as ::core::convert::From<&::core::primitive::str>>::from("x")'


def generics():
    t2 = [("<u8>", ("3u8",)), ("<::std::string::String>", (STR,))]
    yield G("none")
    yield G("empty angle brackets", "<>", "", "")
    yield G("T bounded inline", f"<T: {B}>", None, "<T>", "", ["T"], t2)
    yield G("T unbounded", "<T>", None, "<T>", "", ["T"], t2)
    yield G("T where", "<T>", None, "<T>", f"where T: {B}", ["T"], t2)
    yield G("T where, trailing comma", "<T,>", "<T>", "<T>", f"where T: {B},", ["T"], t2)
    yield G("empty where", f"<T: {B}>", None, "<T>", "where", ["T"], t2)
    yield G("where twice", "<T: ::core::clone::Clone>", None, "<T>", f"where T: ::core::marker::Send + ::core::marker::Sync, T: 'static", ["T"], t2)
    yield G("where on a compound type", f"<T: {B}>", None, "<T>", "where ::core::option::Option<T>: ::core::clone::Clone, [T; 2]: ::core::marker::Send", ["T"], t2)
    yield G("where on Self", f"<T: {B}>", None, "<T>", "where Self: ::core::marker::Sized", ["T"], t2)
    yield G("where without parameters", "", None, "", "where u8: ::core::marker::Copy")
    yield G("default type", f"<T: {B} = u32>", f"<T: {B}>", "<T>", "", ["T"], [("", ("7u32",)), ("<u8>", ("3u8",))])
    yield G("default type, compound", f"<T: {B} = (u8, [u16; 2])>", f"<T: {B}>", "<T>", "", ["T"], [("", ("(1u8, [2u16, 3])",))])
    yield G("const", "<const N: usize>", None, "<N>", "", ["[u8; N]"], [("<0>", ("[0u8; 0]",)), ("<5>", ("[1u8; 5]",))])
    yield G("const with default", "<const N: usize = 3>", "<const N: usize>", "<N>", "", ["[u8; N]"], [("", ("[1u8; 3]",)), ("<2>", ("[1u8; 2]",))])
    yield G("const with a block default", "<const N: usize = { 1 + 2 }>", "<const N: usize>", "<N>", "", ["[u8; N]"], [("", ("[1u8; 3]",))])
    yield G("const of other types", "<const F: bool, const C: char, const I: i8>", None, "<F, C, I>", "", [], [("<true, 'x', -3>", ()), ("<false, '\\'', 3>", ())])
    yield G("T and const", f"<T: {B}, const N: usize = 2>", f"<T: {B}, const N: usize>", "<T, N>", "", ["[T; N]"], [("<u8>", ("[1u8, 2]",)), ("<u16, 1>", ("[9u16]",))])
    yield G("const before T", f"<const N: usize, T: {B}>", None, "<N, T>", "", ["[T; N]"], [("<2, u8>", ("[1u8, 2]",))])
    yield G("lifetime, where", "<'a>", None, "<'a>", "where 'a: 'static", ["&'a u8"], [("<'static>", ("&5u8",))])
    yield G("lifetime, inline", "<'a: 'static>", None, "<'a>", "", ["&'a u8"], [("<'static>", ("&5u8",))])
    yield G("lifetime that is too short", "<'a>", None, "<'a>", "", ["&'a u8"], [("<'static>", ("&5u8",))])
    yield G("two lifetimes", "<'a: 'static + 'b, 'b: 'static>", None, "<'a, 'b>", "", ["&'a u8", "&'b u16"], [("<'static, 'static>", ("&5u8", "&6u16"))])
    yield G("lifetime, T, const", f"<'a: 'static, T: {B} + 'a, const N: usize = 1>", f"<'a: 'static, T: {B} + 'a, const N: usize>", "<'a, T, N>", "where T: ::core::fmt::Debug", ["&'a u8", "[T; N]"], [("<'static, u8>", ("&5u8", "[4u8]"))])
    yield G("two types", "<T, U>", None, "<T, U>", f"where T: {B}, U: {B}", ["T", "U"], [("<u8, u64>", ("1u8", "2u64")), ("<u64, u8>", ("1u64", "2u8"))])
    yield G("type that uses another", f"<T: {B}, U: {B} + ::core::convert::From<T>>", None, "<T, U>", "", ["T", "U"], [("<u8, u64>", ("1u8", "2u64"))])
    yield G("associated type", f"<T: ::core::iter::Iterator<Item = u8> + {B}>", None, "<T>", "", ["T"], [("<::core::iter::Empty<u8>>", ("::core::iter::empty()",))])
    yield G("associated type, where", f"<T: ::core::iter::Iterator + {B}>", None, "<T>", f"where <T as ::core::iter::Iterator>::Item: {B}, T::Item: ::core::clone::Clone", ["T", "::core::option::Option<T::Item>"], [("<::core::iter::Empty<u8>>", ("::core::iter::empty()", "::core::option::Option::Some(1u8)"))])
    yield G("bound on an associated type", f"<T: ::core::iter::Iterator<Item: ::core::clone::Clone> + {B}>", None, "<T>", "", ["T"], [("<::core::iter::Empty<u8>>", ("::core::iter::empty()",))])
    yield G("?Sized", f"<T: ?::core::marker::Sized + {B}>", None, "<T>", "", ["::std::boxed::Box<T>"], [("<[u8]>", ("::std::boxed::Box::new([1u8, 2])",)), ("<u8>", ("::std::boxed::Box::new(1u8)",))])
    yield G("function bound", f"<F: ::core::ops::Fn(&u8) -> u8 + {B}>", None, "<F>", "", ["F"], [("<fn(&u8) -> u8>", ("{ fn f(x: &u8) -> u8 { *x } f }",))])
    yield G("higher-ranked bound", f"<F: for<'x> ::core::ops::Fn(&'x u8, ::std::vec::Vec<::std::vec::Vec<u8>>) -> &'x u8 + {B}>", None, "<F>", "where for<'y> &'y F: ::core::marker::Send", ["F"],
            [("<for<'z> fn(&'z u8, ::std::vec::Vec<::std::vec::Vec<u8>>) -> &'z u8>", ("{ fn f(x: &u8, _: ::std::vec::Vec<::std::vec::Vec<u8>>) -> &u8 { x } f }",))])
    yield G("attribute on a parameter", f"<#[allow(unused)] T: {B}, #[cfg(any())] U, #[cfg(all())] const N: usize>", f"<T: {B}, const N: usize>", "<T, N>", "", ["[T; N]"], [("<u8, 1>", ("[1u8]",))])
    yield G("raw identifier as parameter", f"<r#fn: {B}>", None, "<r#fn>", "", ["r#fn"], t2)
    yield G("parameter named like the trait's items", f"<NAME: {B}, ID: {B}>", None, "<NAME, ID>", "", ["NAME", "ID"], [("<u8, u16>", ("1u8", "2u16"))])
    yield G("parenthesised and maybe-unsized bounds", f"<T: (::core::fmt::Debug) + {B}>", None, "<T>", "where (T): ::core::clone::Clone", ["T"], t2)
    # The component is one whatever the parameter is: a bound the derive adds of its own accord shows.
    rc = "::std::rc::Rc<::core::cell::Cell<u8>>"
    ph = "::core::marker::PhantomData"
    fn = [f"{ph}<fn() -> T>"]
    opaque = [(f"<{rc}>", (ph,)), ("<*mut u8>", (ph,)), ("<&'static dyn ::core::any::Any>", (ph,)), ("<crate::Bare>", (ph,))]
    yield G("T of which nothing is known", "<T: 'static>", None, "<T>", "", fn, opaque)
    yield G("T of which nothing is known, where", "<T>", None, "<T>", "where T: 'static", fn, opaque)
    yield G("unsized T of which nothing is known", "<T: 'static + ?::core::marker::Sized>", None, "<T>", "", fn, opaque + [("<[u8]>", (ph,)), ("<::core::primitive::str>", (ph,)), ("<dyn ::core::any::Any>", (ph,))])
    yield G("T that is only sent", "<T: 'static + ::core::marker::Send>", None, "<T>", "", ["::std::sync::Mutex<T>"], [("<::core::cell::Cell<u8>>", ("::std::sync::Mutex::new(::core::cell::Cell::new(3u8))",))])
    yield G("fully qualified default", f"<T: {B} = <u8 as ::core::ops::Add>::Output>", f"<T: {B}>", "<T>", "", ["T"], [("", ("3u8",))])


FIELDS = [  # (label, types before the usage fields, values)
    ("plain", ["u32"], ["1u32"]),
    ("none", [], []),
    ("owning", ["::std::string::String", "::std::vec::Vec<::std::option::Option<::std::boxed::Box<u8>>>"], [STR, "::std::vec![::core::option::Option::None]"]),
    ("dropping", ["crate::Dc", "u8"], ["crate::Dc", "1u8"]),
    ("aligned", ["crate::Al", "u8", "()"], ["crate::Al(3)", "1u8", "()"]),
    ("functions and references", ["fn(&u8) -> u8", "&'static ::core::primitive::str", "::std::sync::Arc<dyn ::core::ops::Fn(u8) -> u8 + ::core::marker::Send + ::core::marker::Sync>"],
     ["{ fn f(x: &u8) -> u8 { *x } f }", '"y"', "::std::sync::Arc::new(|x| x)"]),
    ("array lengths", ["[u8; { 1 + 1 }]", "[u8; match 3 { 3 => 1, _ => 2 }]", "[u8; (1, 2).0]", "[u8; 7 >> 1 & 3]", "[u8; ::core::mem::size_of::<[u8; { 2 }]>()]"],
     ["[0u8; 2]", "[0u8; 1]", "[0u8; 1]", "[0u8; 3]", "[0u8; 2]"]),
    ("not shareable", ["::core::cell::Cell<u8>"], ["::core::cell::Cell::new(1)"]),
]


def bodies(g, fields):
    """(label, item text with {name}, tuple-where flag, constructor expression per instantiation or None)"""
    _, ft, fv = fields
    types = ft + g.use
    named = ", ".join(f"f{i}: {t}" for i, t in enumerate(types))
    tup = ", ".join(types)

    def vals(inst):
        return fv + list(inst[1])
    w = g.where
    yield "struct with names", f"struct @name@{g.decl} {w} {{ {named} }}", lambda i: "@name@ { " + ", ".join(f"f{k}: {v}" for k, v in enumerate(vals(i))) + " }"
    yield "tuple struct", f"struct @name@{g.decl}({tup}) {w};", lambda i: "@name@(" + ", ".join(vals(i)) + ")"
    if not types:
        yield "unit struct", f"struct @name@{g.decl} {w};", lambda i: "@name@"
        yield "enum without variants", f"enum @name@{g.decl} {w} {{ }}", None
        yield "enum of units", f"enum @name@{g.decl} {w} {{ A, B, C }}", lambda i: "@name@::B"
        yield "enum with discriminants", f"#[repr(i16)] enum @name@{g.decl} {w} {{ A = -3, B = {{ 5 * 2 }}, C = 1 << 7, D = if true {{ 3 }} else {{ 4 }} }}", lambda i: "@name@::C"
    yield "enum", f"enum @name@{g.decl} {w} {{ A, B({tup}), C {{ {named} }} }}", lambda i: "@name@::B(" + ", ".join(vals(i)) + ")"
    if types:
        yield "union", f"union @name@{g.decl} {w} {{ " + ", ".join(f"f{i}: ::core::mem::ManuallyDrop<{t}>" for i, t in enumerate(types)) + " }", None
    if len(types) > 1:
        yield "struct with visibilities and attributes", f"struct @name@{g.decl} {w} {{ " + ", ".join((["pub ", "pub(crate) ", "#[allow(dead_code)] ", "#[doc = \"d\"] pub(super) "][i % 4]) + f"f{i}: {t}" for i, t in enumerate(types)) + ", #[cfg(any())] gone: u8 }", \
            lambda i: "@name@ { " + ", ".join(f"f{k}: {v}" for k, v in enumerate(vals(i))) + " }"


# Where the item is.  @d@: the derive (empty for the hand-written version), @i@: the item, @h@: the hand-written impl.
USE = "use shard_ecs::Component; #[allow(unused_imports)] use shard_ecs_derive::Component;"
CTX = {
    "module": USE + " @d@ @i@ @h@ @info@",
    "function": USE + " pub fn info(o: &mut ::std::vec::Vec<::std::string::String>) { @d@ @i@ @h@ @info@ info(o) }",
    "nested block": USE + " pub fn info(o: &mut ::std::vec::Vec<::std::string::String>) { let f = |o: &mut ::std::vec::Vec<::std::string::String>| { @d@ @i@ @h@ @info@ info(o) }; f(o) }",
    "macro taking an item": USE + " macro_rules! m { ($i:item) => { @d@ $i } } m! { @i@ } @h@ @info@",
    "macro taking tokens": USE + " macro_rules! m { ($($t:tt)*) => { @d@ $($t)* } } m! { @i@ } @h@ @info@",
    "macro in a macro": USE + " macro_rules! m { ($($t:tt)*) => { n! { $($t)* } } } macro_rules! n { ($i:item) => { @d@ $i } } m! { @i@ } @h@ @info@",
    "stringify shadowed": USE + " #[allow(unused_macros)] macro_rules! stringify { ($($x:tt)*) => { \"?\" } } @d@ @i@ @h@ @info@",
    "str shadowed": USE + " #[allow(dead_code, non_camel_case_types)] struct str; #[allow(dead_code)] struct String; @d@ @i@ @h@ @info@",
    "no prelude": "#![no_implicit_prelude] use ::shard_ecs::Component; #[allow(unused_imports)] use ::shard_ecs_derive::Component; @d@ @i@ @h@ @info@",
    "glob import": "use shard_ecs::*; #[allow(unused_imports)] use shard_ecs_derive::*; @d@ @i@ @h@ @info@",
    "constants shadowed": USE + " #[allow(dead_code)] const NAME: u8 = 1; #[allow(dead_code)] const ID: u8 = 1; #[allow(dead_code)] fn name() {} @d@ @i@ @h@ @info@",
}
# How the derive is requested.
ATTR = {
    "alone": ("#[derive(Component)]", ""),
    "with others": ("#[derive(Component, ::core::hash::Hash)]", "#[derive(::core::hash::Hash)]"),
    "after others": ("#[derive(::core::hash::Hash)] #[derive(Component)]", "#[derive(::core::hash::Hash)]"),
    "by path": ("#[derive(::shard_ecs_derive::Component)]", ""),
    "conditional": ("#[cfg_attr(all(), derive(Component))]", ""),
    "documented": ("/// Text with `code` and \"quotes\".\n#[derive(Component)]\n/** more */ #[allow(dead_code)] #[must_use = \"x\"]", "/// Text\n#[allow(dead_code)] #[must_use = \"x\"]"),
    "represented": ("#[repr(C)] #[derive(Component)] #[repr(align(16))]", "#[repr(C)] #[repr(align(16))]"),
}
NAMES = ["X", "snake_case", "SHOUTING", "Ünïcödé", "r#type", "_X", "__", "N4m3", "Component_", "NAME", "Option", "Result", "Send", "a" * 300]
VIS = ["", "pub ", "pub(crate) ", "pub(super) ", "pub(in super) "]


def unit(uid, name, ctx, attr, vis, g, body, ctor, derived):
    args = g.inst
    info = []
    for a, v in args:
        t = f"{name}{a}"
        c = ctor((a, v)).replace("@name@", name) if ctor else None
        live = f"o.push(crate::live::<{t}>({c}));" if c else ""
        info.append(f"o.push(crate::info::<{t}>()); {live}")
    info = "pub fn info(o: &mut ::std::vec::Vec<::std::string::String>) { " + " ".join(info) + " }"
    d, h0 = ATTR[attr]
    item = vis + body.replace("@name@", name)
    if vis == "" and body.startswith("#["):
        pass
    elif body.startswith("#["):
        i = body.index("]") + 1
        item = (body[:i] + " " + vis + body[i:]).replace("@name@", name)
    hand = f"impl{g.impl} Component for {name}{g.args} {g.where} {{ const NAME: &'static ::core::primitive::str = \"{name.replace('r#', '')}\"; }}"
    text = CTX[ctx].replace("@d@", d if derived else h0).replace("@h@", "" if derived else hand).replace("@info@", info).replace("@i@", item)
    return f"#[allow(warnings)] pub mod u{uid} {{ {text}\n}}"


PRELUDE = """#![allow(warnings)]
extern crate core; #[macro_use] extern crate shard_ecs; #[macro_use] extern crate shard_ecs_derive;
pub static DROPS: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0);
pub struct Bare(pub *const u8);
pub struct Dc;
impl Drop for Dc { fn drop(&mut self) { DROPS.fetch_add(1, ::std::sync::atomic::Ordering::Relaxed); } }
impl ::std::hash::Hash for Dc { fn hash<H: ::std::hash::Hasher>(&self, _: &mut H) {} }
#[repr(align(64))] #[derive(Hash)] pub struct Al(pub u8);
pub fn info<C: shard_ecs::Component>() -> String {
    let d = C::DESCRIPTOR;
    let n = C::NAME;
    let n = if n.starts_with("r#") { &n[2..] } else { n };
    let raw = C::NAME != n;
    // The identifier is that of the name, whichever way a raw identifier is spelled.
    let id_ok = C::ID.into_u16() == d.component_type_id().into_u16();
    let shape = d.size() as usize == ::std::mem::size_of::<C>() && d.align() as usize == ::std::mem::align_of::<C>();
    let id = if raw { "raw".to_string() } else { C::ID.into_u16().to_string() };
    format!("name={} id={} id_ok={} size={} align={} shape={} drops={}", n, id, id_ok, d.size(), d.align(), shape, ::std::mem::needs_drop::<C>())
}
pub fn live<C: shard_ecs::Component + shard_ecs::component_group::ComponentGroup>(c: C) -> String {
    let before = DROPS.load(::std::sync::atomic::Ordering::Relaxed);
    let mut r = shard_ecs::Registry::default();
    let e = match r.create_entity(c) { Ok(e) => e, Err(_) => return "create_entity refuses it".to_string() };
    let has = r.has_component::<C>(e);
    let ptr = r.get_component::<C>(e).map(|p| p as *const C as usize % ::std::mem::align_of::<C>());
    let rows: usize = r.iter_entities().count();
    let x = r.remove_entity::<C>(e);
    let back = x.is_some();
    drop(x);
    let mid = DROPS.load(::std::sync::atomic::Ordering::Relaxed) - before;
    format!("has={} ptr={:?} rows={} back={} drops={}", has, ptr, rows, back, mid)
}
"""


def programs_of(tier):
    """(label, name, ctx, attr, vis, g, body, ctor) of every program, grouped by edition."""
    gs = list(generics())
    full = tier == "thorough"

    def prog(g, f, b, ctx="module", attr="alone", vis="", name="X"):
        return (f"{b[0]}, fields {f[0]}, generics {g.label}, in {ctx}, derive {attr}, {'visibility ' + vis if vis else 'private'}, name {name[:20]}", name, ctx, attr, vis, g, b[1], b[2])
    r = {"2021": [], "2015": [], "2018": [], "2024": []}
    small = [f for f in FIELDS if f[0] in ("plain", "none")]
    for ed in r:
        fs = FIELDS if full or ed == "2021" else small
        for g in gs:
            for f in fs:
                for b in bodies(g, f):
                    r[ed].append(prog(g, f, b))
    for ed in (r if full else ["2021"]):
        for g in gs:
            for f in (FIELDS[:4] if full else small):
                for b in bodies(g, f):
                    for ctx in CTX:
                        if ctx != "module":
                            r[ed].append(prog(g, f, b, ctx=ctx))
        few = gs if full else [g for g in gs if g.label in ("none", "T where", "T and const", "lifetime, T, const")]
        for g in few:
            for f in small:
                for b in bodies(g, f):
                    for attr in ATTR:
                        for vis in VIS:
                            if attr != "alone" or vis:
                                r[ed].append(prog(g, f, b, attr=attr, vis=vis))
                    for name in NAMES[1:]:
                        for ctx in ("module", "function", "macro taking tokens"):
                            r[ed].append(prog(g, f, b, name=name, ctx=ctx))
    return r


def run_units(libs, name, edition, units):
    src = PRELUDE + "\n".join(t for _, t in units) + "\nfn main() { let mut o: ::std::vec::Vec<::std::string::String> = ::std::vec::Vec::new();\n" + \
        "\n".join(f'o.clear(); u{i}::info(&mut o); println!("{i}\\t{{}}", o.join(" | "));' for i, _ in units) + "\n}\n"
    path = os.path.join(libs.dir, name + ".rs")
    open(path, "w").write(src)
    exe = os.path.join(libs.dir, name)
    rc, err = libs.rustc(path, ["--edition", edition, "--crate-type", "bin", "--crate-name", name, "-C", "debuginfo=0", "-C", "codegen-units=16", "-o", exe])
    if rc != 0:
        return None, "\n".join((json.loads(l).get("rendered") or "") for l in err.splitlines() if l.startswith("{") and json.loads(l).get("level") == "error")[:3000] or err[:2000]
    r = subprocess.run([exe], capture_output=True, text=True, timeout=300)
    out = dict(l.split("\t", 1) for l in r.stdout.splitlines() if "\t" in l)
    return {int(k): v for k, v in out.items()}, f"rc={r.returncode} {r.stderr[-1500:]}"


def main(tier, env, target, tree_hash, write_evidence, violation, known):
    t0 = time.time()
    libs = programs.Libs(env, target)
    libs.build(tree_hash)
    progs = programs_of(tier)
    notes, samples = [], []
    total = compiled = compared = 0
    fails = []
    listed = [k for k in known if k.get("property") == "P25"]
    told = set()
    from concurrent.futures import ThreadPoolExecutor

    chunks = []
    uid = 0
    for ed, ps in progs.items():
        for k in range(0, len(ps), 400):
            chunks.append((ed, uid + k, ps[k:k + 400]))
        uid += len(ps)

    def one(job):
        ed, base, ps = job
        hand = [(base + i, unit(base + i, n, c, a, v, g, b, ct, False)) for i, (_, n, c, a, v, g, b, ct) in enumerate(ps)]
        der = [(base + i, unit(base + i, n, c, a, v, g, b, ct, True)) for i, (_, n, c, a, v, g, b, ct) in enumerate(ps)]
        vh = programs.accepted(libs, f"hand{base}", PRELUDE, hand, ed)
        ok = {i for i, e in vh.items() if e is None}
        vd = programs.accepted(libs, f"derived{base}", PRELUDE, [u for u in der if u[0] in ok], ed)
        both = {i for i in ok if vd[i] is None}
        bad = [(i, "does not compile although the hand-written implementation does:\n" + vd[i]) for i in sorted(ok - both)]
        rh, eh = run_units(libs, f"rhand{base}", ed, [u for u in hand if u[0] in both])
        rd, ed_ = run_units(libs, f"rderived{base}", ed, [u for u in der if u[0] in both])
        if rh is None or len(rh) != len(both):
            raise programs.NoAnswer("the hand-written programs do not run: " + eh)
        if rd is None:
            bad.append((base, "the derived programs do not build: " + ed_))
            rd = rh
        for i in sorted(both):
            if rd.get(i) != rh[i]:
                a, b = rh[i], rd.get(i)
                if b is not None:
                    # raw identifiers: either spelling of the name is accepted, and with it its identifier
                    strip = lambda s: " ".join(x for x in s.split(" ") if not x.startswith("id="))
                    if "r#" in ps[i - base][1] and strip(a) == strip(b):
                        continue
                bad.append((i, f"derived: {b}\nhand-written: {a}"))
        for f in (f"hand{base}", f"derived{base}", f"rhand{base}", f"rderived{base}"):
            for e in ("", ".rs", ".rmeta"):
                p = os.path.join(libs.dir, f + e)
                if os.path.exists(p):
                    os.remove(p)
        return len(ps), len(ok), len(both), bad, {i: rh[i] for i in list(both)[:2]}, {i: (der[i - base][1]) for i, _ in bad}, vh

    with ThreadPoolExecutor(8) as ex:
        results = list(ex.map(one, chunks))
    label = {}
    for (ed, base, ps) in chunks:
        for i, p in enumerate(ps):
            label[base + i] = f"edition {ed}: {p[0]}"
    for n, ok, both, bad, smp, src, _ in results:
        total += n
        compiled += ok
        compared += both
        for i, s in smp.items():
            if len(samples) < 10:
                samples.append(label[i] + " -> " + s)
        for i, msg in bad:
            fails.append((i, msg, src.get(i, "")))
    if os.environ.get("DERIVE_DEBUG"):
        from collections import Counter
        c = Counter()
        for (ed, base, ps), r in zip(chunks, results):
            for i, e in r[6].items():
                if e:
                    c[label[i].split("generics ")[1].split(",")[0] + " // " + label[i].split("fields ")[1].split(",")[0] + " // " + e.split("\n")[0][:110]] += 1
        for k, v in sorted(c.items()):
            print(v, k)
    left = []
    for i, msg, src in fails:
        k = next((k for k in listed if k.get("match") and all(m.strip() in label[i] + " " + msg for m in k["match"].split("&&"))), None)
        if k:
            if k["desc"] not in told:
                told.add(k["desc"])
                print(f"KNOWN-FINDING: property=P25 {k['desc']}")
        else:
            left.append((i, msg, src))
    run = {"profile": "programs", "states": total, "transitions": compiled * 2, "executions": compared, "wall_s": round(time.time() - t0, 1), "samples": samples,
           "cover": {"type definitions enumerated": total, "accepted with a hand-written implementation": compiled, "derived and hand-written compared at run time": compared},
           "notes": [f"{total} definitions ({', '.join(f'edition {k}: {len(v)}' for k, v in progs.items())}); {compiled} accepted by hand, all compared"]}
    write_evidence("P25", tier, "model_checking", [run], time.time() - t0, 1 if left else 0)
    if left:
        i, msg, src = left[0]
        violation("P25", {"property": "P25", "tier": tier, "profile": "programs", "cases": [], "message": f"{len(left)} definitions; first: {msg}", "history": label[i] + "\n" + src, "replay_cmd": "python3 check.py P25 " + tier})
        return 1
    print(f"P25 definitions={total} accepted={compiled} compared={compared} wall={time.time() - t0:.1f}s")
    return 0
