//! The explored spaces, one module per property.
use crate::{
    ast::*,
    ctx::{doc, Ctx},
};

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
pub mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
pub mod names;

pub fn run(id: &str, c: &mut Ctx) {
    match id {
        "C01" => c01::run(c),
        "C02" => c02::run(c),
        "C03" => c03::run(c),
        "C04" => c04::run(c),
        "C05" => c05::run(c),
        "C06" => c06::run(c),
        "C07" => c07::run(c),
        "C08" => c08::run(c),
        "C09" => c09::run(c),
        "C10" => c10::run(c),
        "C11" => c11::run(c),
        "C12" => c12::run(c),
        "C13" => c13::run(c),
        "C14" => c14::run(c),
        "C15" => c15::run(c),
        "C16" => c16::run(c),
        "C17" => c17::run(c),
        "C18" => c18::run(c),
        "C19" => c19::run(c),
        "C20" => c20::run(c),
        "C21" => c21::run(c),
        _ => crate::real::infra(format!("unknown property {id}")),
    }
}

// ---------------------------------------------------------------- contexts //

/// Places where a list of children can appear.
pub const CONTEXTS: &[&str] = &["root", "fragment", "element", "paren", "svg", "component", "bare", "fn", "slot", "args"];

/// Puts children into a context.
pub fn place(ctx: &str, k: Vec<Child>) -> Vec<Child> {
    match ctx {
        "root" => k,
        "fragment" => {
            let mut v = vec![txt("<")];
            v.extend(k);
            v.push(txt(">"));
            v
        }
        "element" => vec![el(html("div")).kids(k).c()],
        "paren" => vec![el(html("div")).pkids(k).c()],
        "svg" => vec![el(tag(Kind::Svg, "g")).kids(k).c()],
        "component" => vec![el(comp("Card")).kids(k).c()],
        "bare" => vec![el(comp("Bare")).kids(k).c()],
        "fn" => vec![el(comp("Twice")).kids(k).c()],
        "slot" => vec![el(comp("Layout")).kids(vec![el(comp("Head")).kids(k).slot()]).c()],
        "args" => vec![el(comp("Each")).args("|_|", &["_"]).kids(k).c()],
        _ => panic!("{ctx}"),
    }
}

/// All sequences of up to `n` of six kinds of attributes, with names of their
/// own, so that none of them replaces another.
pub fn mixes(t: &Tag, n: usize) -> Vec<crate::ctx::Doc> {
    use c04::dir;
    let mut docs = vec![];
    let mut pre = String::new();
    for i in 0..n {
        pre.push_str(&format!("let sp{i} = leptos::tachys::html::attribute::custom::custom_attribute(\"data-sp{i}\", {i}); "));
    }
    let props = ["a", "x-1", "the-long-name", "fl", "type"];
    for len in 2..=n {
        for s in seqs(6, len) {
            let ats = s
                .iter()
                .enumerate()
                .map(|(i, k)| {
                    let v = |x: &str| Some(str_lit(&format!("{x}{i}")));
                    match k {
                        0 => At::Spread(format!("sp{i}"), vec![Eff::Attr(format!("data-sp{i}"), Rv::i(i as i64))]),
                        1 => dir("class", &format!("c{i}"), Some(lit("true", Rv::Bool(true)))),
                        2 if t.kind == Kind::Comp => dir("attr", &format!("data-{i}"), v("a")),
                        2 => At::Kv(format!("data-{i}"), str_lit(&format!("a{i}"))),
                        3 => dir("style", &format!("s{i}"), v("s")),
                        4 => dir("prop", &format!("p{i}"), v("p")),
                        _ if t.kind == Kind::Comp => At::Kv(props[i].into(), if i == 3 { lit("2.5", Rv::Num("2.5".into(), String::new())) } else { lit("7", Rv::i(7)) }),
                        _ => dir("use", "d2", Some(lit(&i.to_string(), Rv::i(i as i64)))),
                    }
                })
                .collect();
            let e = el(t.clone()).ats(ats);
            docs.push(doc(&pre, vec![match len % 3 {
                0 => e.c(),
                1 => e.kids(vec![txt("k")]).c(),
                _ => e.pkids(vec![txt("k"), el(html("br")).c()]).c(),
            }]));
        }
    }
    docs
}

/// All sequences of two to `n` of what is in one of the lists, which all have
/// the same name; also with others between them.
pub fn repeats(pre: &str, t: &Tag, lists: &[Vec<At>], n: usize) -> Vec<crate::ctx::Doc> {
    let mut docs = vec![];
    for (l, list) in lists.iter().enumerate() {
        for len in 2..=n {
            for s in seqs(list.len(), len) {
                let ats: Vec<At> = s.iter().map(|&i| list[i].clone()).collect();
                let mut apart = vec![];
                for (k, a) in ats.iter().enumerate() {
                    apart.push(a.clone());
                    let other = &lists[(l + k + 1) % lists.len()][0];
                    if k + 1 < len {
                        apart.push(other.clone());
                    }
                }
                let j: usize = s.iter().sum::<usize>() + len;
                for (k, ats) in [ats, apart].into_iter().enumerate() {
                    let e = el(t.clone()).ats(ats);
                    docs.push(doc(pre, vec![match (j + k) % 3 {
                        0 => e.c(),
                        1 => e.kids(vec![txt("k")]).c(),
                        _ => e.pkids(vec![txt("k"), el(html("br")).c()]).c(),
                    }]));
                }
            }
        }
    }
    docs
}

/// All sequences over `0..n` of length `len`.
pub fn seqs(n: usize, len: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..len {
        out = out
            .into_iter()
            .flat_map(|s| {
                (0..n).map(move |i| {
                    let mut s = s.clone();
                    s.push(i);
                    s
                })
            })
            .collect();
    }
    out
}

/// Runs every line of the input (`items ### code` or `code`) and shows what it does.
pub fn try_lines() {
    use crate::real::{Prog, Real, Res};
    let ps: Vec<Prog> = std::io::stdin()
        .lines()
        .map_while(Result::ok)
        .filter(|l| !l.trim().is_empty())
        .map(|l| match l.split_once("###") {
            Some((i, c)) => Prog { items: i.into(), code: c.into() },
            None => Prog { items: String::new(), code: l },
        })
        .collect();
    let real = Real::new();
    if let Ok(e) = std::env::var("MC_EDITION") {
        real.set_edition(&e);
    }
    for (p, r) in ps.iter().zip(real.run(&ps)) {
        println!("{}\n    {}", p.code, r.short());
        if let Res::Err(ds) = &r {
            for d in ds {
                println!("      {} {:?}", d.msg, d.primary.iter().map(|x| x.map(|(a, b)| &p.code[a..b])).collect::<Vec<_>>());
            }
        }
    }
}

pub fn replay(path: &str) {
    use crate::{ctx::{judge, Want}, html, real::{Prog, Real}};
    let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap_or_else(|e| crate::real::infra(format!("{path}: {e}")))).unwrap();
    println!("property {}: {}", j["property"], j["what"]);
    if let Some(code) = j["code"].as_str() {
        let p = Prog { items: j["items"].as_str().unwrap_or("").into(), code: code.into() };
        println!("items: {}\ncode:  {}", p.items, p.code);
        let real = Real::new();
        real.set_edition(j["edition"].as_str().unwrap_or("2021"));
        real.set_lints(!j["want"]["warnings"].is_null());
        let r = if j["check_only"] == true { real.check(&[p]) } else { real.run(&[p]) };
        println!("want:  {}", j["want"]);
        if let crate::real::Res::Ok(s) = &r[0] {
            if let Ok(d) = html::parse(s) {
                println!("got:   {}", html::show(&d));
            }
        }
        println!("raw:   {}", r[0].short());
        if let crate::real::Res::Err(ds) = &r[0] {
            for d in ds {
                println!("  {} {} {:?}", d.code, d.msg, d.primary);
            }
        }
        let _ = judge(&r[0], &Want::Compiles);
    } else if let Some(src) = j["input"].as_str() {
        println!("input: {src}");
        println!("expansion: {:#?}", crate::expand::expand(src));
        println!("want:  {}", j["want"]);
    } else {
        println!("{}", serde_json::to_string_pretty(&j).unwrap());
    }
}
