//! Props of components, generics, paths.
use super::*;

pub const PRE: &str = "let a = 11; let b = \"sb\"; let the_long_name = 12; let r#type = 13; let c = true; let x_1 = 14; let class = \"pc\";";

/// Props with the field that they set.
pub fn atoms() -> Vec<(At, &'static str)> {
    let kv = |k: &str, v: Val| At::Kv(k.into(), v);
    vec![
        (kv("a", lit("1", Rv::i(1))), "a"),
        (kv("b", str_lit("s t")), "b"),
        (At::Flag("c".into()), "c"),
        (kv("the-long-name", lit("2", Rv::i(2))), "l"),
        (At::Short("the-long-name".into(), Rv::i(12)), "l"),
        (At::Short("type".into(), Rv::i(13)), "t"),
        (kv("class", str_lit("k")), "cl"),
        (kv("d", block("String::from(\"o\")", Rv::s("o"))), "d"),
        (At::Short("a".into(), Rv::i(11)), "a"),
        (kv("x-1", block("3", Rv::i(3))), "x"),
        (kv("id", str_lit("i")), "id"),
        (kv("type", lit("4", Rv::i(4))), "t"),
        (kv("ref", str_lit("r")), "rf"),
        (kv("style", block("\"st\"", Rv::s("st"))), "st"),
        (kv("sig", block("Signal::derive(|| 5)", Rv::i(5))), "sg"),
        (kv("ch", lit("'q'", Rv::s("q"))), "ch"),
        (kv("fl", lit("2.5", Rv::Num("2.5".into(), String::new()))), "fl"),
        (kv("r#type", block("6 + 1", Rv::i(7))), "t"),
        (kv("c", lit("true", Rv::Bool(true))), "c"),
        (kv("c", lit("false", Rv::Bool(false))), "c"),
        (At::Short("class".into(), Rv::s("pc")), "cl"),
        (kv("the_long_name", lit("8", Rv::i(8))), "l"),
        (At::Short("x-1".into(), Rv::i(14)), "x"),
        (At::Short("b".into(), Rv::s("sb")), "b"),
        (At::Short("c".into(), Rv::Bool(true)), "c"),
        (kv("the - long - name", lit("9", Rv::i(9))), "l"),
        (kv("r#the-long_name", lit("10", Rv::i(10))), "l"),
    ]
}

/// Ways to write a path to a component.
pub fn paths(name: &str) -> Vec<String> {
    ["", "deep::", "deep::er::", "crate::deep::", "self::deep::er::", "mvbase::", "::mvbase::", "::mvbase::deep::er::"]
        .iter()
        .map(|p| format!("{p}{name}"))
        .collect()
}

fn named(src: &str, name: &str) -> Tag { Tag { kind: Kind::Comp, src: src.into(), name: name.into() } }

pub fn end(e: Elem, how: usize) -> Child {
    match how % 4 {
        0 => e.c(),
        1 => e.kids(vec![txt("k")]).c(),
        2 => e.pkids(vec![txt("k"), el(html("br")).c()]).c(),
        _ => e.kids(vec![]).c(),
    }
}

pub fn run(c: &mut Ctx) {
    let atoms = atoms();
    let mut docs = vec![];
    for n in 0..=c.b(2, 3) {
        for s in seqs(atoms.len(), n) {
            let mut f: Vec<_> = s.iter().map(|&i| atoms[i].1).collect();
            f.sort();
            f.dedup();
            if f.len() < n {
                continue;
            }
            let j = s.iter().sum::<usize>();
            if n == 3 && j % 4 != 0 {
                continue;
            }
            docs.push(doc(PRE, vec![end(el(comp("Props")).ats(s.iter().map(|&i| atoms[i].0.clone()).collect()), j)]));
        }
    }
    // all props at once, in several orders
    let all: Vec<At> = [0, 1, 2, 3, 5, 6, 7, 9, 10, 12, 13, 14, 15, 16].iter().map(|&i| atoms[i].0.clone()).collect();
    for r in 0..all.len() {
        let mut v = all.clone();
        v.rotate_left(r);
        docs.push(doc(PRE, vec![end(el(comp("Props")).ats(v.clone()), r)]));
        v.reverse();
        v.truncate(r + 1);
        docs.push(doc(PRE, vec![end(el(comp("Props")).ats(v), r + 1)]));
    }
    c.docs("props", "all sequences of up to 2 (3) of 27 spellings of 14 props, and all props in 28 orders", docs);

    let mut docs = vec![];
    let lits: Vec<(&str, Val)> = vec![
        ("a", lit("0x1F", Rv::i(31))),
        ("a", block("-3", Rv::i(-3))),
        ("a", block("let q = 2; q * q", Rv::i(4))),
        ("a", block("if true { 1 } else { 2 }", Rv::i(1))),
        ("b", lit("r#\"a\"b\"#", Rv::s("a\"b"))),
        ("b", str_lit("")),
        ("b", block("format!(\"{}\", 3)", Rv::s("3"))),
        ("d", block("None::<String>.unwrap_or_default()", Rv::s(""))),
        ("sig", lit("3", Rv::i(3))),
        ("sig", block("Signal::derive(|| 7)", Rv::i(7))),
        ("c", block("1 < 2", Rv::Bool(true))),
        ("ch", lit("'\\n'", Rv::s("\n"))),
        ("fl", lit("1e1", Rv::Num("10".into(), String::new()))),
    ];
    for (i, (k, v)) in lits.iter().enumerate() {
        for ctx in CONTEXTS {
            docs.push(doc("", place(ctx, vec![end(el(comp("Props")).at(At::Kv(k.to_string(), v.clone())), i)])));
        }
    }
    for v in [blockfn("|| 1", Rv::i(1)), blockfn("move || \"s\"", Rv::s("s")), bracket("2", Rv::i(2)), fmt("\"{}!\", 3", "3!"), bracket("let z = 4; z", Rv::i(4)), fmt("\"n\"", "n")] {
        docs.push(doc("", vec![el(comp("Calls")).at(At::Kv("f".into(), v.clone())).c()]));
        docs.push(doc("", place("element", vec![el(comp("Calls")).at(At::Kv("f".into(), v)).c(), txt("x")])));
    }
    c.docs("values", "19 values in each of 10 kinds of parent", docs);

    let mut docs = vec![];
    for (i, ctx) in CONTEXTS.iter().enumerate() {
        for (j, p) in paths("Leaf").iter().enumerate() {
            docs.push(doc("", place(ctx, vec![el(named(p, "Leaf")).c(), txt("a")])));
            let _ = (i, j);
        }
        for p in paths("Props") {
            docs.push(doc("", place(ctx, vec![txt("a"), end(el(named(&p, "Props")).at(atoms[i].0.clone()).at(At::Kv("ch".into(), lit("'y'", Rv::s("y")))), i)])).pre(PRE));
        }
        for p in paths("Card") {
            docs.push(doc("", place(ctx, vec![el(named(&p, "Card")).kids(vec![el(named(&p, "Card")).pkids(vec![txt("q")]).c()]).c()])));
        }
    }
    c.docs("paths", "8 ways to name a component, in each of 10 kinds of parent", docs);

    let tys: &[(&str, &str)] = &[
        ("i32", "i32"),
        ("String", "alloc::string::String"),
        ("Vec<u8>", "alloc::vec::Vec<u8>"),
        ("Vec<Vec<u8>>", "alloc::vec::Vec<alloc::vec::Vec<u8>>"),
        ("Vec::<u8>", "alloc::vec::Vec<u8>"),
        ("(i32, u8)", "(i32, u8)"),
        ("()", "()"),
        ("[u8; 3]", "[u8; 3]"),
        ("fn(i32) -> u8", "fn(i32) -> u8"),
        ("&'static str", "&str"),
        ("std::string::String", "alloc::string::String"),
        ("Box<dyn Fn(i32) -> Vec<u8>>", "alloc::boxed::Box<dyn core::ops::function::Fn(i32) -> alloc::vec::Vec<u8>>"),
        ("<Vec<u8> as IntoIterator>::Item", "u8"),
    ];
    let mut docs = vec![];
    for (i, (t, full)) in tys.iter().enumerate() {
        for fish in ["", "::"] {
            for p in paths("Gen").iter().filter(|p| !p.starts_with("mvbase") || true) {
                let tg = named(&format!("{p}{fish}<{t}>"), &format!("Gen:{full}"));
                docs.push(doc("", vec![end(el(tg.clone()), i)]));
                docs.push(doc("", vec![end(el(tg.clone()).at(At::Kv("ph".into(), block("std::marker::PhantomData", Rv::Nothing))), i + 1)]));
                if p.len() < 10 {
                    docs.push(doc("", vec![end(el(tg.clone()).sel(Sel::Class("s".into())), i)]));
                    docs.push(doc("", vec![end(el(tg.clone()).sel(Sel::Id("s".into())), i)]));
                    docs.push(doc("", vec![end(el(tg).at(super::c04::dir("class", "z", None)), i + 1)]));
                }
            }
            for (u, ufull) in tys.iter().skip(i % 3).step_by(3) {
                docs.push(doc("", vec![el(named(&format!("Gen2{fish}<{t}, {u}>"), &format!("Gen2:{full}/{ufull}"))).c(), txt("e")]));
            }
        }
    }
    for ctx in CONTEXTS {
        for (t, full) in &tys[..4] {
            for fish in ["", "::"] {
                docs.push(doc("", place(ctx, vec![end(el(named(&format!("Gen{fish}<{t}>"), &format!("Gen:{full}"))), 1), txt("z")])));
            }
        }
    }
    // functions of generic types are components, too
    let items = "mod shapes { pub struct Shape<T>(::std::marker::PhantomData<T>); impl<T: 'static> Shape<T> { pub fn Draw(p: ::mvbase::GenProps<T>) -> impl ::leptos::prelude::IntoView { ::mvbase::Gen::<T>(p) } pub fn With<U: 'static>(p: ::mvbase::Gen2Props<T, U>) -> impl ::leptos::prelude::IntoView { ::mvbase::Gen2::<T, U>(p) } } } use shapes::Shape; use shapes as more;";
    for (i, (t, full)) in tys.iter().enumerate() {
        for (j, fish) in ["", "::"].into_iter().enumerate() {
            for (k, p) in ["", "shapes::", "more::"].into_iter().enumerate() {
                let tg = named(&format!("{p}Shape{fish}<{t}>::Draw"), &format!("Gen:{full}"));
                docs.push(doc("", vec![end(el(tg.clone()), i + k)]).items(items));
                docs.push(doc("", place(CONTEXTS[(i + j + k) % CONTEXTS.len()], vec![end(el(tg.clone()).sel(Sel::Class("s".into())), i), txt("z")])).items(items));
                for (l, (u, ufull)) in tys.iter().enumerate() {
                    if (i + l) % 3 != k {
                        continue;
                    }
                    let fish2 = ["", "::"][(l + j) % 2];
                    docs.push(doc("", vec![el(named(&format!("{p}Shape{fish}<{t}>::With{fish2}<{u}>"), &format!("Gen2:{full}/{ufull}"))).c(), txt("e")]).items(items));
                }
            }
        }
    }
    c.docs("generics", "13 type arguments with and without turbofish on 8 paths, with attributes, selectors and children; pairs of arguments; functions of generic types", docs);

    // modules of the same name in the scope of the macro, with other components
    let items = "mod deep { pub use ::mvbase::{Slug as Leaf, GenB as Gen}; pub mod er { pub use ::mvbase::{Slug as Leaf, GenB as Gen}; } } mod mvbase { pub use ::mvbase::{Slug as Leaf, GenB as Gen}; pub struct Pt; pub mod deep { pub mod er { pub use ::mvbase::{Slug as Leaf, GenB as Gen}; } } } mod std { pub mod string { pub struct String; } } use Props as Shadow;";
    let mut docs = vec![];
    let prefixes = [("", true), ("deep::", false), ("deep::er::", false), ("crate::deep::", true), ("self::deep::er::", true), ("self::deep::", true), ("mvbase::", false), ("mvbase::deep::er::", false), ("::mvbase::", true), ("::mvbase::deep::er::", true), ("::mvbase::deep::", true)];
    let args = [("i32", "i32"), ("::mvbase::Pt", "mvbase::Pt"), ("Vec<::mvbase::Pt>", "alloc::vec::Vec<mvbase::Pt>"), ("::std::string::String", "alloc::string::String"), ("<::std::vec::Vec<u8> as ::std::iter::IntoIterator>::Item", "u8")];
    for (i, ctx) in CONTEXTS.iter().enumerate() {
        for (p, real) in &prefixes {
            docs.push(doc("", place(ctx, vec![el(named(&format!("{p}Leaf"), if *real { "Leaf" } else { "Slug" })).c(), txt("a")])).items(items));
            docs.push(doc("", place(ctx, vec![el(named(&format!("{p}Leaf"), if *real { "Leaf" } else { "Slug" })).sel(Sel::Class("k".into())).at(super::c04::dir("class", "z", None)).c()])).items(items));
            for fish in ["", "::"] {
                for (j, (t, full)) in args.iter().enumerate() {
                    if (i + j) % 5 > 1 {
                        continue;
                    }
                    let tg = named(&format!("{p}Gen{fish}<{t}>"), &format!("{}:{full}", if *real { "Gen" } else { "GenB" }));
                    let e = el(tg);
                    docs.push(doc("", place(ctx, vec![if j % 2 == 0 { e.c() } else { e.sel(Sel::Class("k".into())).c() }, txt("a")])).items(items));
                }
            }
        }
    }
    c.docs("same modules", "11 ways to name a component with local modules of the same names, with 5 type arguments, in 10 kinds of parent", docs);

    let mut progs = vec![];
    let all: Vec<String> = names::names(c.b(2, 3));
    let n = all.len();
    // `build` and `children` are methods of every builder
    for p in names::packs(all, 9) {
        for rot in 0..3 {
            progs.extend(names::prop_prog(&p, rot));
        }
    }
    c.progs("all names", &format!("{n} names of props: {}; in packs of 9 alike names, each with a value, as a flag and as a shorthand, on a component that has all of them and similar ones", names::WHAT), progs);
}
