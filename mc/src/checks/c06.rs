//! Attributes on components reach the root elements.
use super::{c04::{dir, dirs, on}, *};
use crate::tables;

pub const PRE: &str = "let yes = true; let color = \"blue\"; let title = \"ti\"; let data_k = \"dk\"; let value = \"pv\"; let class = \"kc\"; let sp = leptos::tachys::html::attribute::custom::custom_attribute(\"data-sp\", \"6\"); let sp2 = (leptos::tachys::html::class::class(\"sc\"), leptos::tachys::html::style::style((\"bottom\", \"9px\")));";

pub fn atoms() -> Vec<At> {
    let sh = |d: &str, k: &str, rv: Rv| At::DirShort { dir: d.into(), key: k.into(), modi: None, rv, lazy: false };
    vec![
        dir("class", "on", None),
        dir("attr", "title", Some(str_lit("t"))),
        dir("style", "top", Some(str_lit("1px"))),
        on("click", false, "h1"),
        At::Spread("sp".into(), vec![Eff::Attr("data-sp".into(), Rv::s("6"))]),
        dir("prop", "value", Some(str_lit("p"))),
        dir("use", "d1", None),
        dir("class", "c-d", Some(block("true", Rv::Bool(true)))),
        dirs("class", "p[q]:r", Some(bracket("true", Rv::Bool(true)))),
        dir("class", "off", Some(lit("false", Rv::Bool(false)))),
        sh("class", "yes", Rv::Bool(true)),
        dirs("style", "left", Some(bracket("\"2px\"", Rv::s("2px")))),
        sh("style", "color", Rv::s("blue")),
        dir("attr", "class", Some(str_lit("x y"))),
        dir("attr", "style", Some(str_lit("margin:1px"))),
        dir("attr", "data-x", Some(lit("3", Rv::i(3)))),
        dir("attr", "aria-label", Some(bracket("\"al\"", Rv::s("al")))),
        dir("attr", "hidden", None),
        sh("attr", "lang", Rv::s("la")),
        sh("attr", "data-k", Rv::s("dk")),
        dirs("attr", "data-q", Some(fmt("\"{}\", 4", "4"))),
        on("input", true, "h2"),
        dir("prop", "in-x", Some(lit("5", Rv::i(5)))),
        dir("prop", "flag", None),
        sh("prop", "value", Rv::s("pv")),
        dirs("prop", "o p", Some(block("6", Rv::i(6)))),
        dir("use", "d2", Some(lit("7", Rv::i(7)))),
        dir("use", "d3", Some(str_lit("u"))),
        At::Spread("sp2".into(), vec![Eff::Class("sc".into(), Rv::Bool(true)), Eff::Style("bottom".into(), Rv::s("9px"))]),
        dir("attr", "r#for", Some(str_lit("ff"))),
    ]
}
/// What each of `atoms` must not be combined with: the same attribute again.
fn slot_of(a: &At) -> Option<String> {
    match a {
        At::Dir { dir, key, .. } if dir == "attr" && key.name() != "class" => Some(key.name()),
        At::DirShort { dir, key, .. } if dir == "attr" => Some(key.clone()),
        At::Spread(e, _) => Some(e.clone()),
        _ => None,
    }
}

fn hosts() -> Vec<(Tag, bool)> {
    // component, needs children
    vec![(comp("Leaf"), false), (comp("Card"), true), (comp("Opt"), false), (comp("Twice"), true)]
}

fn host(i: usize, sels: &[Sel], ats: Vec<At>) -> Child {
    let hs = hosts();
    // with several roots leptos shares handlers and the like, which hides their names
    let shared = ats.iter().any(|a| matches!(a, At::Dir { dir, .. } | At::DirShort { dir, .. } if matches!(dir.as_str(), "on" | "prop" | "use")));
    let (t, need) = &hs[if shared && i % 4 == 3 { 1 } else { i % 4 }];
    let mut e = el(t.clone()).ats(ats);
    e.sels = sels.to_vec();
    if !need {
        return e.c();
    }
    match i % 3 {
        0 => e.kids(vec![el(html("p")).kids(vec![txt("in")]).c()]).c(),
        1 => e.pkids(vec![el(html("p")).c(), el(html("br")).sel(Sel::Class("own".into())).c()]).c(),
        _ => e.kids(vec![el(comp("Card")).kids(vec![el(html("br")).c()]).c()]).c(),
    }
}

const LANG: &str = "let lang = \"la\";";

pub fn run(c: &mut Ctx) {
    let atoms = atoms();
    let pre = format!("{PRE} {LANG}");
    let sels = super::c03::sels();
    let mut docs = vec![];
    for n in 0..=c.b(2, 3) {
        for s in seqs(sels.len(), n) {
            for h in 0..4 {
                docs.push(doc(&pre, vec![host(h, &s.iter().map(|&i| sels[i].clone()).collect::<Vec<_>>(), vec![])]));
            }
        }
    }
    c.docs("selectors", "all sequences of up to 2 (3) of 6 selectors on 4 kinds of component", std::mem::take(&mut docs));
    for n in 1..=c.b(2, 3) {
        for s in seqs(atoms.len(), n) {
            let ats: Vec<At> = s.iter().map(|&i| atoms[i].clone()).collect();
            let mut slots: Vec<_> = ats.iter().filter_map(slot_of).collect();
            let k = slots.len();
            slots.sort();
            slots.dedup();
            // a spread is moved
            if slots.len() < k {
                continue;
            }
            let j: usize = s.iter().sum();
            if n == 3 && j % 3 != 0 {
                continue;
            }
            for h in 0..4 {
                if n > 1 && h != j % 4 {
                    continue;
                }
                docs.push(doc(&pre, vec![host(h, &[], ats.clone())]));
                if n == 1 || j % 2 == 0 {
                    docs.push(doc(&pre, vec![host(h, &sels[j % 4..j % 4 + 2], ats.clone())]));
                }
            }
        }
    }
    c.docs("sequences", "all sequences of up to 2 (3) of 30 attributes, with and without selectors, on 4 kinds of component", std::mem::take(&mut docs));
    // between props
    let props = super::c05::atoms();
    for (i, a) in atoms.iter().enumerate() {
        for j in 0..4 {
            let p = &props[(i * 5 + j) % 20].0;
            let e = el(comp("Props"));
            let p2 = format!("{pre} {}", super::c05::PRE);
            docs.push(doc(&p2, vec![super::c05::end(if j % 2 == 0 { e.at(a.clone()).at(p.clone()) } else { e.at(p.clone()).at(a.clone()) }, i + j)]));
        }
    }
    c.docs("with props", "30 attributes before and after props", std::mem::take(&mut docs));
    for ctx in CONTEXTS {
        for (i, a) in atoms.iter().enumerate() {
            if matches!(a, At::Spread(..)) && matches!(*ctx, "fn" | "slot" | "args") {
                continue;
            }
            for h in 0..c.b(3, 4) {
                docs.push(doc(&pre, place(ctx, vec![el(html("hr")).c(), host(h + i, &sels[i % 3..i % 3 + 1], vec![a.clone()]), host(i, &[], vec![])])));
            }
        }
    }
    c.docs("places", "30 attributes with a selector in each of 10 kinds of parent", std::mem::take(&mut docs));
    // every name
    for ch in tables::ATTRS.iter().filter(|a| !matches!(a.0, "style" | "class")).collect::<Vec<_>>().chunks(12) {
        for (k, kebab) in [false, true].into_iter().enumerate() {
            let ats = ch.iter().map(|a| dir("attr", if kebab { a.1 } else { a.0 }, Some(str_lit(&format!("v-{}", a.0))))).collect();
            docs.push(doc("", vec![host(k * 3 + 1, &[], ats)]));
        }
    }
    for (i, name) in super::c02::lexicon(c.b(1, 2)).iter().enumerate() {
        let m = super::c02::meant(name);
        if m.contains('-') {
            docs.push(doc("", vec![host(i, &[], vec![dir("attr", name, Some(str_lit("n")))])]));
            docs.push(doc("", vec![host(i, &[], vec![dir("attr", name, None)])]));
        }
        docs.push(doc("", vec![host(i, &[], vec![dir("class", name, Some(lit("true", Rv::Bool(true))))])]));
        docs.push(doc("", vec![host(i, &[], vec![dir("class", name, None)])]));
        docs.push(doc("", vec![host(i, &[], vec![dir("style", name, Some(str_lit("n")))])]));
        docs.push(doc("", vec![host(i, &[], vec![dir("prop", name, Some(str_lit("n")))])]));
    }
    for (i, (ev, _)) in tables::EVENTS.iter().enumerate() {
        docs.push(doc("", vec![host(i, &[], vec![on(ev, i % 2 == 0, "h1")])]));
    }
    c.docs("names", "every attribute and event that leptos knows; kebab-case names", std::mem::take(&mut docs));
    for n in (1..=c.b(60, 120)).chain([676, 677, 700]) {
        for j in 0..4 {
            let ats = (0..n).map(|i| [dir("class", &format!("c{i}"), None), dir("attr", &format!("data-{i}"), Some(str_lit("1"))), dir("style", &format!("s{i}"), Some(str_lit("2"))), dir("prop", &format!("p{i}"), Some(lit("3", Rv::i(3))))][(i + j) % 4].clone()).collect();
            let ss: Vec<Sel> = (0..(n + j) % 5).map(|i| if i % 2 == 0 { Sel::Class(format!("k{i}")) } else { Sel::Id(format!("d{i}")) }).collect();
            docs.push(doc("", vec![host(n + j, &ss, ats)]));
        }
    }
    c.docs("length", "1..=60 (120), and about 26 times 26 attributes", docs);

    let mut docs = vec![];
    let mut lists = super::c03::same_names(true);
    lists.extend(super::c04::same_names(true));
    let same = |k: &str| vec![dir("attr", k, Some(str_lit("1"))), dir("attr", k, Some(block("\"2\"", Rv::s("2")))), dir("attr", k, None), dirs("attr", k, Some(bracket("\"3\"", Rv::s("3"))))];
    lists.push(same("data-x"));
    lists.push(same("title").into_iter().take(3).collect());
    docs.extend(repeats(&format!("{pre} let click = h3::<leptos::ev::MouseEvent>;"), &comp("Opt"), &lists, c.b(3, 4)));
    c.docs("repeated", "all sequences of up to 3 (4) attributes of the same name, next to each other and apart", docs);

    c.docs("mixes", "all sequences of up to 4 (5) of spreads, classes, attributes, styles, properties and props, all of other names", mixes(&comp("Props"), c.b(4, 5)));

    let mut docs = vec![];
    let all = names::names(c.b(2, 3));
    let n = all.len();
    let leaf = comp("Leaf");
    for (i, p) in names::packs(all.clone(), 6).iter().enumerate() {
        docs.push(names::style_docs(&leaf, p, true));
        docs.push(names::class_short_doc(&leaf, p, i as i64));
        docs.push(names::short_doc(&leaf, if i % 2 == 0 { "style" } else { "prop" }, p));
        docs.push(doc("", vec![el(leaf.clone()).ats(p.iter().enumerate().map(|(i, n)| dir("prop", n, Some(lit(&i.to_string(), Rv::i(i as i64))))).collect()).c()]));
    }
    for p in names::packs(all.into_iter().filter(|n| names::custom(n)).collect(), 9) {
        docs.push(doc("", vec![el(leaf.clone()).ats(p.iter().enumerate().map(|(i, n)| dir("attr", n, Some(lit(&i.to_string(), Rv::i(i as i64))))).collect()).c()]));
        docs.push(names::short_doc(&leaf, "attr", &p));
        docs.push(doc("", vec![el(leaf.clone()).ats(p.iter().flat_map(|n| [dir("attr", n, None), At::Spread("()".into(), vec![])]).collect()).c()]));
    }
    c.docs("all names", &format!("{n} names: {}; in packs of 6 to 9 alike names, as classes, ids, styles, properties and attributes of components", names::WHAT), docs);
}
