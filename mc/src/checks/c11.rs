//! Shorthands and what they abbreviate.
use super::*;
use crate::{ctx::Want, html as dom, real::Prog};
use std::rc::Rc;

/// Ways to write the same thing: after the tag name, and among the attributes.
type Alts = Vec<(String, String)>;

fn at(v: &[&str]) -> Alts { v.iter().map(|s| (String::new(), s.to_string())).collect() }
fn sel(s: &str, v: &[&str]) -> Alts {
    let mut o = vec![(s.to_string(), String::new())];
    o.extend(at(v));
    o
}

const PRE: &str = "let title = \"ti\"; let data_k = \"dk\"; let r#type = \"ty\"; let yes = true; let on_x = true; let color = \"red\"; let margin_top = \"3px\"; let value = \"pv\"; let click = h3::<leptos::ev::MouseEvent>; let a = 11; let the_long_name = 12; let d2_p = 4; let lang = \"la\"; let b = \"sb\"; let label = \"lb\"; let n = 3;";

fn values() -> Vec<Vec<&'static str>> {
    vec![
        vec!["[\"q\"]", "{move || \"q\"}", "{|| \"q\"}", "{move || { \"q\" }}", "[{ \"q\" }]"],
        vec!["f[\"{}-{x}\", 1, x = 2]", "[format!(\"{}-{x}\", 1, x = 2)]", "{move || format!(\"{}-{x}\", 1, x = 2)}", "{move || ::std::format!(\"1-2\")}", "f[\"{}\", f[0]]"],
        vec!["\"q\"", "{\"q\"}", "{{ \"q\" }}", "r\"q\"", "r#\"q\"#", "\"\\u{71}\""],
        vec!["[let z = 1; z + 1]", "{move || { let z = 1; z + 1 }}"],
    ]
}

/// Attributes of elements.
fn elem_alts() -> Vec<Alts> {
    let mut v = vec![
        at(&["hidden", "hidden=true", "hidden={true}", "r#hidden"]),
        at(&["{title}", "title={title}", "{r#title}", "r#title={title}", "{ title }"]),
        at(&["{data-k}", "data-k={data_k}", "data - k={data_k}", "{data-k}", "{ data - k }"]),
        at(&["class:{yes}", "class:yes={yes}", "class:\"yes\"={yes}", "class:r#yes=true"]),
        at(&["class:{on-x}", "class:on-x={on_x}", "class:\"on-x\"=true"]),
        at(&["style:{color}", "style:color={color}", "style:\"color\"=\"red\""]),
        at(&["style:{margin-top}", "style:margin-top={margin_top}", "style:margin - top=\"3px\""]),
        at(&["prop:{value}", "prop:value={value}", "prop:\"value\"={value}", "prop:r#value=\"pv\""]),
        at(&["on:{click}", "on:click={click}", "on:r#click={click}"]),
        at(&["on:{click}:undelegated", "on:click:undelegated={click}", "on:{r#click}:undelegated"]),
        at(&["use:d1", "use:d1={()}", "use:r#d1"]),
        at(&["aria-label=\"l\"", "aria - label=\"l\""]),
        at(&["ref={nref(\"r\")}", "r#ref={nref(\"r\")}"]),
        sel(".a", &["class:a=true", "class:\"a\"=true", "class:a={true}", "class=\"a\"", "class={\"a\"}"]),
        sel(".a-b.c", &["class:a-b=true class:c=true", "class=\"c a-b\"", "class:c=true class=\"a-b\""]),
        sel(" #i-j", &["id=\"i-j\"", "id={\"i-j\"}"]),
        vec![(" #i #j".into(), String::new()), (" # i # j".into(), String::new()), (String::new(), "id=\"i j\"".into())],
        vec![(" #i .k #j".into(), String::new()), (".k # i #j".into(), String::new()), (" #i".into(), String::new()), (String::new(), "id=\"i j\" class:k=true".into())],
    ];
    // the third of the last is not the same
    v.last_mut().unwrap().remove(2);
    for k in ["lang", "data-v", "style:left"] {
        for vals in values() {
            if k == "style:left" && vals[0].contains("let z") {
                continue;
            }
            v.push(at(&vals.iter().map(|x| format!("{k}={}", x.replace("f[0]", "\"1-2\""))).collect::<Vec<_>>().iter().map(|s| s.as_str()).collect::<Vec<_>>()));
        }
    }
    v
}

/// Attributes of components that reach the roots.
fn comp_alts() -> Vec<Alts> {
    let mut v = vec![
        at(&["class:y", "class:y=true", "class:y={true}", "class:\"y\"", "class:\"y\"=true"]),
        at(&["class:{yes}", "class:yes={yes}", "class:yes"]),
        at(&["style:{color}", "style:color={color}"]),
        at(&["attr:{title}", "attr:title={title}", "attr:r#title=\"ti\""]),
        at(&["attr:{data-k}", "attr:data-k={data_k}", "attr:\"data-k\"={data_k}"]),
        at(&["attr:hidden", "attr:hidden=true", "attr:hidden={true}"]),
        at(&["prop:flag", "prop:flag=true", "prop:\"flag\""]),
        at(&["prop:{value}", "prop:value={value}"]),
        at(&["on:{click}", "on:click={click}"]),
        at(&["on:{click}:undelegated", "on:click:undelegated={click}"]),
        at(&["use:d1", "use:d1={()}"]),
        sel(".a", &["class:a", "class:a=true", "attr:class=\"a\""]),
        sel(".a-b.c", &["class:a-b class:c", "attr:class=\"a-b c\"", "class:c=true class:a-b=true"]),
        sel(" #i-j", &["attr:id=\"i-j\"", "attr:id={\"i-j\"}"]),
        vec![(" #i #j".into(), String::new()), (" # i # j".into(), String::new()), (String::new(), "attr:id=\"i j\"".into())],
    ];
    for k in ["attr:lang", "attr:data-v", "style:left"] {
        for vals in values() {
            if k == "style:left" && vals[0].contains("let z") {
                continue;
            }
            v.push(at(&vals.iter().map(|x| format!("{k}={}", x.replace("f[0]", "\"1-2\""))).collect::<Vec<_>>().iter().map(|s| s.as_str()).collect::<Vec<_>>()));
        }
    }
    v
}

fn prop_alts() -> Vec<Alts> {
    vec![
        at(&["c", "c=true", "c={true}", "r#c"]),
        at(&["{a}", "a={a}", "a=11", "r#a={11}"]),
        at(&["the-long-name=12", "the_long_name=12", "the - long_name=12", "{the-long-name}", "{the_long_name}", "the-long-name={the_long_name}", "{ the - long - name }"]),
        at(&["{b}", "b={b}", "b=\"sb\""]),
        at(&["class=\"k\"", "r#class=\"k\""]),
        at(&["type=2", "r#type=2", "r#type={2}"]),
    ]
}

/// Children.
fn child_alts() -> Vec<Vec<String>> {
    let mut v: Vec<Vec<String>> = values().iter().map(|v| v.iter().map(|x| x.replace("f[0]", "\"1-2\"")).collect()).collect();
    let s = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    v.push(s(&["p;", "p{}", "p()", "p { }", "r#p;"]));
    v.push(s(&["p { \"x\" i; }", "p(\"x\" i;)", "p{{\"x\"} i{}}", "r#p(\"x\" i())"]));
    v.push(s(&["Opt;", "Opt {}", "Opt()", "r#Opt;", "self::Opt;", "mvbase::Opt{}", "::mvbase::Opt();"]));
    v.last_mut().unwrap().pop();
    v.push(s(&["Opt { \"x\" p; }", "Opt(\"x\" p;)", "mvbase::Opt(\"x\" p{})"]));
    v.push(s(&["Gen<i32>;", "Gen::<i32>;", "mvbase::Gen<i32> {}", "::mvbase::Gen::<i32>()"]));
    v.push(s(&["x-y .c { \"t\" }", "x - y.c(\"t\")", "x-y class:c=true {{\"t\"}}"]));
    v.push(s(&["Each |_| { \"e\" }", "Each |_|(\"e\")", "Each | _ | {{\"e\"}}"]));
    v.push(s(&["Layout { slot:Head label=\"lb\" { \"h\" } \"k\" }", "Layout(slot:Head {label} (\"h\") \"k\")", "Layout { \"k\" slot : Head label={label} { {\"h\"} } }", "Layout { \"k\" slot:r#Head label={\"lb\"} (\"h\") }"]));
    v.push(s(&["Layout { slot:Item n=3; slot:Item { \"i\" } }", "Layout { slot:Item {n} slot:Item(\"i\") }", "Layout(slot:Item n={n} {} slot:Item {{\"i\"}})"]));
    // without an end, the braces of the second would be its children
    v.last_mut().unwrap().remove(1);
    v.push(s(&["Layout { slot:TwoWords { \"t\" } slot:Type(\"y\") }", "Layout { slot:r#TwoWords(\"t\") slot:r#Type { \"y\" } }"]));
    v
}

/// One program with the first way and several others; all must look the same.
fn group(pre: &str, variants: &[String], progs: &mut Vec<(Prog, Want)>) {
    let judge = |out: &str| -> Option<String> {
        let mut it = out.split('\u{1}');
        let first = dom::parse(it.next().unwrap());
        for x in it {
            let d = dom::parse(x);
            if d != first || d.is_err() {
                let s = |d: &Result<Vec<dom::Dom>, String>| d.as_ref().map_or_else(|e| e.clone(), |d| dom::show(d));
                return Some(format!("the first renders as {}, another as {}", s(&first), s(&d)));
            }
        }
        None
    };
    for ch in variants[1..].chunks(7) {
        let mut parts = vec![format!("html(mview! {{ {} }})", variants[0])];
        parts.extend(ch.iter().map(|v| format!("html(mview! {{ {v} }})")));
        let code = format!("{pre} [{}].join(\"\\u{{1}}\")", parts.join(", "));
        progs.push((Prog { items: String::new(), code }, Want::Judge("the same document several times".into(), Rc::new(judge))));
    }
}

/// Every combination of ways.
fn product<T: Clone>(alts: &[Vec<T>]) -> Vec<Vec<T>> {
    let mut out = vec![vec![]];
    for a in alts {
        out = out.into_iter().flat_map(|p: Vec<T>| a.iter().map(move |x| [p.clone(), vec![x.clone()]].concat())).collect();
    }
    out
}

fn attrs(c: &Ctx, tag: &str, end: &[&str], alts: &[Alts], n: usize, progs: &mut Vec<(Prog, Want)>, wrap: impl Fn(usize, String) -> String) {
    for s in seqs(alts.len(), n) {
        if n > 1 && s.windows(2).any(|w| w[0] == w[1]) {
            continue;
        }
        let j: usize = s.iter().sum();
        if n == 3 && j % 7 != 0 {
            continue;
        }
        let chosen: Vec<Alts> = s.iter().map(|&i| alts[i].clone()).collect();
        // the same attribute in two ways is a different question
        let name = |a: &Alts| a.last().unwrap().1.split(['=', '"']).next().unwrap_or("").to_string();
        let names: Vec<String> = chosen.iter().map(name).collect();
        let ids = chosen.iter().filter(|a| a.iter().any(|x| x.0.contains('#'))).count();
        if (0..n).any(|i| (0..i).any(|k| names[i] == names[k] && !names[i].starts_with("class"))) || ids > 1 {
            continue;
        }
        // `class=` twice and the like
        if chosen.iter().filter(|a| a.iter().any(|x| x.1.contains("class=") || x.1.contains("attr:class"))).count() > 1 {
            continue;
        }
        let mut vs = vec![];
        let all = product(&chosen);
        let step = if c.quick() && n > 1 { 2 } else { 1 };
        for (k, p) in all.iter().enumerate() {
            if k > 0 && (k + j) % step != 0 {
                continue;
            }
            let sels: String = p.iter().map(|x| x.0.clone()).collect();
            let ats: String = p.iter().map(|x| format!(" {}", x.1)).collect();
            vs.push(wrap(j, format!("{tag}{sels}{ats}{}", end[(k + j) % end.len()])));
        }
        group(PRE, &vs, progs);
    }
}

/// The tokens of a document, and where their spelling allows no space.
fn pieces(ts: proc_macro2::TokenStream, out: &mut Vec<(String, bool)>) {
    use proc_macro2::{Delimiter, Spacing, TokenTree};
    // before the next one
    let mut glue: Option<char> = None;
    for t in ts {
        let g = glue.take();
        match t {
            TokenTree::Punct(p) => {
                let c = p.as_char();
                let one = g.is_some_and(|g| matches!(&*format!("{g}{c}"), "::" | "=>" | "->" | ".." | "||" | "&&" | "==" | "!=" | "<=" | ">=" | "+=" | "-=" | "'"));
                out.push((c.to_string(), one));
                glue = (p.spacing() == Spacing::Joint).then_some(c);
            }
            TokenTree::Group(d) => {
                let (o, e) = match d.delimiter() {
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                out.push((o.into(), false));
                pieces(d.stream(), out);
                out.push((e.into(), false));
            }
            t => out.push((t.to_string(), g == Some('\''))),
        }
    }
}

/// Whether the two are still the two when nothing is between them.
fn apart(a: &str, b: &str) -> bool {
    let punct = |s: &str| s.len() == 1 && s.chars().all(|c| c.is_ascii_punctuation() && c != '_');
    let delim = |s: &str| ["(", ")", "{", "}", "[", "]", ";"].contains(&s);
    match (punct(a), punct(b)) {
        _ if delim(a) || delim(b) => true,
        (true, true) | (false, false) => false,
        // a number with a dot, a prefix
        (false, true) => b != "#" && !(b == "." && a.starts_with(|c: char| c.is_ascii_digit())),
        (true, false) => !(a == "#" && b.contains(['"', '#'])),
    }
}

/// With everything as usual, except for some places.
fn laid_out(p: &[(String, bool)], gap: impl Fn(usize) -> Option<&'static str>) -> String {
    let mut s = p[0].0.clone();
    for i in 1..p.len() {
        if !p[i].1 {
            match gap(i) {
                Some("") if !apart(&p[i - 1].0, &p[i].0) => s.push(' '),
                Some(g) => s.push_str(g),
                None => s.push(' '),
            }
        }
        s.push_str(&p[i].0);
    }
    s
}

const GAPS: &[&str] = &["\n", "", "/* c */", "\n\n    ", "\t", "// c\n", "\r\n", "\u{2028}", "\n// c; } \" \n/* /* d */ ) */\n"];

/// The same tokens with other space between them.
fn layouts(c: &mut Ctx) {
    let mut progs = vec![];
    let mut docs: Vec<String> = vec![];
    for (need, d) in super::c18::DOCS {
        docs.push(format!("{need}\u{1}{d}"));
    }
    let e = [elem_alts(), comp_alts(), prop_alts()];
    for (k, tag) in ["div", "Leaf", "Props"].iter().enumerate() {
        for (s, a) in e[k].iter().flatten() {
            let a = if *tag == "Props" { a.replace("r#type={2}", "r#type={2i32}") } else { a.clone() };
            docs.push(format!("\u{1}{tag}{s} {a};"));
        }
    }
    // among others
    for (s, a) in e[0].iter().flatten().step_by(5) {
        docs.push(format!("\u{1}p.x-y {a} data-some-long-name=\"v\" {{ my-el{s} hidden; \"t\" }}"));
    }
    for v in child_alts().into_iter().flatten() {
        docs.push(format!("\u{1}{v}"));
        docs.push(format!("\u{1}p {{ \"a\" {v} }}"));
    }
    let mut places = 0;
    for (j, d) in docs.iter().enumerate() {
        let (need, d) = d.split_once('\u{1}').unwrap();
        let mut p = vec![];
        pieces(d.parse().unwrap(), &mut p);
        let mut vs = vec![d.to_string()];
        for g in GAPS {
            vs.push(laid_out(&p, |_| Some(g)));
        }
        let free: Vec<usize> = (1..p.len()).filter(|&i| !p[i].1).collect();
        places += free.len();
        for &i in &free {
            // one other place, and all others
            for (k, g) in GAPS.iter().enumerate() {
                if k == 0 || !c.quick() || k == 1 + (i + j) % (GAPS.len() - 1) {
                    vs.push(laid_out(&p, |x| (x == i).then_some(*g)));
                }
            }
            vs.push(laid_out(&p, |x| Some(if x == i { " " } else { "\n" })));
        }
        if !c.quick() && p.len() < 14 {
            for &a in &free {
                for &b in free.iter().filter(|b| **b > a) {
                    vs.push(laid_out(&p, |x| (x == a || x == b).then_some("\n")));
                }
            }
        }
        group(&format!("{PRE} {need}"), &vs, &mut progs);
    }
    c.progs("layouts", &format!("{} documents with 9 kinds of space (none, lines, comments, ...) in each of their {places} places between tokens, in all, and in all but one (thorough: and in any two)", docs.len()), progs);
}

pub fn run(c: &mut Ctx) {
    let e = elem_alts();
    let mut progs = vec![];
    for n in 1..=c.b(2, 3) {
        attrs(c, "div", &[";", " {}", "()"], &e, n, &mut progs, |_, s| s);
    }
    for t in ["input", "rect", "x-el", "mi"] {
        attrs(c, t, &[";"], &e, 1, &mut progs, |_, s| s);
    }
    let at_place = |j: usize, s: String| match j % 6 {
        0 => format!("section {{ \"a\" {s} }}"),
        1 => format!("Card {{ {s} \"b\" }}"),
        2 => format!("\"a\" {s} \"b\""),
        3 => format!("svg ( {s} )"),
        4 => format!("Opt class:k {{ div {{ {s} }} }}"),
        _ => format!("Bare {{ {s} br; }}"),
    };
    for i in 0..6 {
        attrs(c, "p", &[";", " {}", "()"], &e, 1, &mut progs, |j, s| at_place(i + j, s));
    }
    c.progs("elements", "all choices of spelling in all sequences of up to 2 (3) of 29 attributes (quick: every second), of 5 kinds of element and in 6 kinds of parent", progs);

    let mut progs = vec![];
    let k = comp_alts();
    for n in 1..=c.b(2, 3) {
        attrs(c, "Leaf", &[";", ""], &k.iter().map(|a| a.clone()).collect::<Vec<_>>(), n, &mut progs, |j, s| {
            let s = s.trim_end_matches(';').to_string();
            if j % 2 == 0 { format!("{s};") } else { format!("p {{ {s}; }}") }
        });
    }
    attrs(c, "Card", &["{\"x\"}", "(\"x\")", " { {\"x\"} }"], &k, 1, &mut progs, |_, s| s);
    let p: Vec<Alts> = prop_alts();
    for n in 1..=c.b(2, 3) {
        attrs(c, "Props", &[";", " {}", "()"], &p, n, &mut progs, |_, s| s.replace("r#type={2}", "r#type={2i32}"));
    }
    let mixed: Vec<Alts> = p.into_iter().chain(k.into_iter().step_by(4)).collect();
    attrs(c, "Props", &["{\"x\"}", "(\"x\")"], &mixed, 2, &mut progs, |_, s| s);
    c.progs("components", "all choices of spelling in all sequences of up to 2 (3) of 26 attributes and 6 props of components", progs);

    let mut progs = vec![];
    let ch = child_alts();
    for n in 1..=c.b(2, 3) {
        for s in seqs(ch.len(), n) {
            let j: usize = s.iter().sum();
            if n == 3 && j % 3 != 0 {
                continue;
            }
            let chosen: Vec<_> = s.iter().map(|&i| ch[i].clone()).collect();
            let vs: Vec<String> = product(&chosen)
                .into_iter()
                .enumerate()
                .filter(|(k, _)| *k == 0 || n == 1 || !c.quick() && n == 2 || (k + j) % 3 == 0)
                .map(|(_, p)| if n == 1 { p.join(" ") } else { at_place(j, p.join(" ")) })
                .collect();
            group(PRE, &vs, &mut progs);
            if n == 1 {
                for i in 0..6 {
                    group(PRE, &vs.iter().map(|s| at_place(i, s.clone())).collect::<Vec<_>>(), &mut progs);
                }
            }
        }
    }
    c.progs("children", "all choices of spelling in all sequences of up to 2 (3) of 14 children (quick: one in three of the choices)", progs);

    // the variable that a shorthand takes, among variables of similar names
    let mut docs = vec![];
    let all = names::names(c.b(2, 3));
    let n = all.len();
    let elems = super::c02::kinds();
    let short = |t: &Tag, p: &[String]| {
        let ats = p.iter().filter_map(|n| names::num(p, n).map(|k| At::Short(n.clone(), Rv::i(k)))).collect();
        doc(&names::lets(p, |k| k.to_string()), vec![el(t.clone()).ats(ats).c()])
    };
    for (i, p) in names::packs(all.clone(), 9).iter().enumerate() {
        docs.push(names::class_short_doc(&elems[i % 4], p, i as i64));
        docs.push(names::class_short_doc(&comp("Leaf"), p, i as i64 + 1));
        for d in ["style", "prop"] {
            docs.push(names::short_doc(&elems[(i + 1) % 4], d, p));
            docs.push(names::short_doc(&comp("Leaf"), d, p));
        }
    }
    let (cust, plain): (Vec<_>, Vec<_>) = all.into_iter().filter(|n| !names::special(n)).partition(|n| names::custom(n));
    for (i, p) in names::packs(cust, 9).iter().enumerate() {
        docs.push(short(&elems[i % 4], p));
        docs.push(names::short_doc(&comp("Leaf"), "attr", p));
    }
    for p in names::packs(plain, 9) {
        docs.push(short(&elems[1], &p));
        docs.push(short(&elems[3], &p));
    }
    c.docs("variables", &format!("shorthands of {n} names: {}; in packs of 9 alike names with variables of similar names around", names::WHAT), docs);

    layouts(c);
}
