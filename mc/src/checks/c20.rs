//! Warnings of the compiler: none that the user's code does not deserve, and
//! none lost that it does.
use super::*;
use crate::{
    ast,
    ctx::{Doc, Tier, Want},
    real::{Prog, RDiag},
};
use std::rc::Rc;

/// Where the invocations stand.
fn extents(code: &str) -> Vec<(usize, usize)> {
    use proc_macro2::TokenTree as T;
    fn walk(ts: proc_macro2::TokenStream, out: &mut Vec<(usize, usize)>) {
        let ts: Vec<T> = ts.into_iter().collect();
        for (i, t) in ts.iter().enumerate() {
            let T::Group(g) = t else { continue };
            if let [.., T::Ident(n), T::Punct(_)] = &ts[..i] {
                if n == "mview" {
                    out.push((n.span().byte_range().start, g.span_close().byte_range().end));
                    continue;
                }
            }
            walk(g.stream(), out);
        }
    }
    // the positions of later streams follow each other, so each gets a thread
    let code = code.to_string();
    std::thread::spawn(move || {
        let mut out = vec![];
        walk(code.parse().unwrap(), &mut out);
        out
    })
    .join()
    .unwrap()
}

/// Whether a warning is about something that the document itself binds.
fn deserved(code: &str, d: &RDiag, (a, b): (usize, usize)) -> bool {
    let pipes = code[..a].matches('|').count();
    match &*d.code {
        "unused_variables" | "unused_mut" => pipes % 2 == 1 || code[..a].ends_with("clone:"),
        "noop_method_call" => code.contains("clone:"),
        // code that ends with a semicolon, on purpose
        "unused_must_use" => code[a..b].starts_with('&'),
        "unused_parens" => code[a..].starts_with('(') || code[..b].ends_with(')'),
        _ => false,
    }
}

/// No warnings within the documents.
fn quiet(p: Prog) -> (Prog, Want) {
    let code = p.code.clone();
    let judge = move |ds: &[RDiag]| -> Option<String> {
        if ds.is_empty() {
            return None;
        }
        let ext = extents(&code);
        let bad: Vec<String> = ds
            .iter()
            .filter(|d| d.primary.iter().flatten().any(|&(a, b)| ext.iter().any(|e| a >= e.0 && b <= e.1) && !deserved(&code, d, (a, b))))
            .map(|d| format!("{} ({})", d.msg, d.code))
            .collect();
        (!bad.is_empty()).then(|| format!("warns: {}", bad.join(" / ")))
    };
    (p, Want::Warnings("none that the document causes".into(), Rc::new(judge)))
}

/// No warnings at all.
fn silent(code: String) -> (Prog, Want) {
    let judge = |ds: &[RDiag]| -> Option<String> { (!ds.is_empty()).then(|| format!("warns: {}", ds.iter().map(|d| format!("{} ({})", d.msg, d.code)).collect::<Vec<_>>().join(" / "))) };
    (Prog { items: String::new(), code }, Want::Warnings("none".into(), Rc::new(judge)))
}

/// This warning at the marked place, and none elsewhere.
fn told(items: &str, code: String, lint: &'static str) -> (Prog, Want) {
    let a = code.find('«').unwrap();
    let code = code.replacen('«', "", 1);
    let b = code.find('»').unwrap();
    let code = code.replacen('»', "", 1);
    let c2 = code.clone();
    let judge = move |ds: &[RDiag]| -> Option<String> {
        let at: Vec<(usize, usize)> = ds.iter().filter(|d| d.code == lint).flat_map(|d| d.primary.iter().flatten().copied()).collect();
        if !at.iter().any(|r| r.0 >= a && r.1 <= b) {
            return Some(format!("no warning `{lint}` at `{}`, but: {}", &c2[a..b], ds.iter().map(|d| format!("{} ({}) {:?}", d.msg, d.code, d.primary)).collect::<Vec<_>>().join(" / ")));
        }
        let ext = extents(&c2);
        let bad: Vec<String> = ds
            .iter()
            .filter(|d| d.primary.iter().flatten().any(|r| ext.iter().any(|e| r.0 >= e.0 && r.1 <= e.1) && !(r.0 >= a && r.1 <= b)))
            .map(|d| format!("{} ({})", d.msg, d.code))
            .collect();
        (!bad.is_empty()).then(|| format!("warns elsewhere: {}", bad.join(" / ")))
    };
    (Prog { items: items.into(), code }, Want::Warnings(format!("`{lint}` there, and no others"), Rc::new(judge)))
}

const ITEMS: &str = "#[deprecated] fn old() -> &'static str { \"x\" } #[must_use] fn must() -> u8 { 1 } #[deprecated] fn oldd(_: leptos::tachys::renderer::types::Element, _: ()) {} #[allow(deprecated)] mod oldm { use mvbase::*; #[deprecated] #[component] pub fn Oldc() -> impl IntoView { () } } #[allow(unused, deprecated)] use oldm::*; #[deprecated] fn oldh<E>(_: E) {} ";

/// Code of strings that deserves a warning.
const OWN: &[(&str, &str)] = &[
    ("{ let «unn» = 1; \"x\" }", "unused_variables"),
    ("{ let «mut mm» = \"x\"; mm }", "unused_mut"),
    ("«old»()", "deprecated"),
    ("{ «must()»; \"x\" }", "unused_must_use"),
    ("{ let «CamelVar» = \"x\"; CamelVar }", "non_snake_case"),
    ("match 1 { _ => \"x\", «1» => \"y\" }", "unreachable_patterns"),
    ("{ fn «unf»() {} \"x\" }", "dead_code"),
    ("{ use «std::fmt::Debug»; \"x\" }", "unused_imports"),
    ("{ let mut n = 0u8; let m = n; «n = m»; \"x\" }", "unused_assignments"),
];

pub fn run(c: &mut Ctx) {
    // what the other checks explore
    type Run = fn(&mut Ctx);
    let all: [(&str, Run, usize); 9] = [("C01", c01::run, 2), ("C02", c02::run, 4), ("C03", c03::run, 2), ("C04", c04::run, 2), ("C05", c05::run, 1), ("C06", c06::run, 4), ("C07", c07::run, 2), ("C08", c08::run, 2), ("C10", c10::run, 4)];
    for (id, f, part) in all {
        let part = c.b(part, 1);
        let mut sub = Ctx::new(id, Tier::Quick);
        sub.collect = Some(vec![]);
        f(&mut sub);
        let docs: Vec<Doc> = sub.collect.take().unwrap();
        let progs: Vec<_> = docs.iter().step_by(part).map(|d| quiet(d.prog())).collect();
        c.transitions += docs.iter().step_by(part).map(|d| ast::size(&d.kids) as u64).sum::<u64>();
        c.progs(&format!("documents of {id}"), &format!("every {part}th document that its quick check explores: no warnings"), progs);
    }

    for ed in ["2021", "2024"] {
    let at = if ed == "2021" { String::new() } else { format!(", edition {ed}") };
    c.edition = ed;
    // where the invocation stands
    let mut progs = vec![];
    for (need, d) in c18::DOCS {
        for i in c18::INVOCATIONS {
            if i.contains("into_any_fut") || !need.is_empty() && (i.contains("fn q") || i.contains("fn Q") || i.contains("(1..2)")) {
                continue;
            }
            for (o, e) in [("mview! { ", " }"), ("mview! ( ", " )"), ("::leptos_mview::mview!(", ")")] {
                progs.push(quiet(Prog { items: String::new(), code: format!("{{ {need} {} }}", i.replace('¤', &format!("{o}{d}{e}"))) }));
            }
        }
    }
    c.progs(&format!("invocations{at}"), "7 documents in 36 surroundings and 3 spellings of the invocation", progs);

    // warnings about the user's code are not lost
    let mut progs = vec![];
    for (p, clos) in c18::PLACES {
        for (f, is_clos) in [("{$}", false), ("[$]", true), ("f[\"{}\", $]", true)] {
            if is_clos && !clos || *p == "Calls f=¤;" && !is_clos {
                continue;
            }
            for (e, lint) in OWN.iter() {
                progs.push(told(ITEMS, format!("html(mview! {{ {} }})", p.replace('¤', &f.replace('$', e))), lint));
            }
        }
    }
    c.progs(&format!("own warnings{at}"), "10 warnings of values in 28 places and 3 forms", progs);

    let mut progs = vec![];
    for (d, lint) in [
        ("Each |«unn»| { \"a\" }", "unused_variables"),
        ("Each |«unn»| ( p { \"a\" } \"b\" )", "unused_variables"),
        ("Each |«mut i»| { {i} }", "unused_mut"),
        ("Layout { slot:Row |«unn»| { \"a\" } }", "unused_variables"),
        ("Card clone:«un» { \"a\" }", "unused_variables"),
        ("Each clone:«un» |_| { \"a\" }", "unused_variables"),
        ("Layout { slot:Head clone:«un» { \"a\" } }", "unused_variables"),
        ("«Oldc»;", "deprecated"),
        ("Card { «Oldc» { } }", "deprecated"),
        ("oldm::«Oldc»;", "deprecated"),
        ("div use:«oldd»;", "deprecated"),
        ("Leaf use:«oldd»;", "deprecated"),
        ("div on:click={«oldh»};", "deprecated"),
        ("Leaf on:click={«oldh»};", "deprecated"),
        ("div {..leptos::tachys::html::attribute::title(«old»())};", "deprecated"),
        ("Leaf {..leptos::tachys::html::attribute::title(«old»())};", "deprecated"),
    ] {
        for w in ["%", "div { % }", "\"<\" % \">\"", "Card { % }", "Layout { slot:Head { % } }", "Each |_| { % }"] {
            progs.push(told(ITEMS, format!("let un = String::new(); html(mview! {{ {} }})", w.replace('%', d)), lint));
        }
    }
    c.progs(&format!("own constructs{at}"), "16 constructs that deserve a warning in 6 places", progs);
    // what only a document uses is used
    let mut progs = vec![];
    for (p, clos) in c18::PLACES {
        for (f, is_clos) in [("{$}", false), ("[$]", true), ("f[\"{}\", $]", true), ("f[\"{$}\"]", true), ("{ let q = $; q }", false)] {
            if is_clos && !clos || *p == "Calls f=¤;" && !is_clos {
                continue;
            }
            for (def, e) in [("let uu = \"x\";", "uu"), ("fn uu() -> &'static str { \"x\" }", "uu()"), ("const UU: &str = \"x\";", "UU"), ("macro_rules! uu { () => { \"x\" } }", "uu!()"), ("use std::convert::identity as uu;", "uu(\"x\")"), ("struct Uu { a: &'static str } let uu = Uu { a: \"x\" };", "uu.a")] {
                if f.contains("{$}\"") && e != "uu" && e != "UU" {
                    continue;
                }
                progs.push(silent(format!("{def} html(mview! {{ {} }})", p.replace('¤', &f.replace('$', e)))));
            }
        }
    }
    for (def, d) in [
        ("use mvbase::Leaf as Uu;", "Uu;"),
        ("use mvbase::Card as Uu;", "Uu { \"k\" }"),
        ("use mvbase::Each as Uu;", "Uu |i| { {i} }"),
        ("#[component] fn Uu() -> impl IntoView { }", "Uu;"),
        ("mod uu { use mvbase::*; #[component] pub(super) fn Uu() -> impl IntoView { } }", "uu::Uu;"),
        ("fn uu(_: leptos::tachys::renderer::types::Element, _: ()) {}", "div use:uu;"),
        ("fn uu(_: leptos::tachys::renderer::types::Element, _: ()) {}", "Leaf use:uu;"),
        ("let uu = true;", "div class:{uu};"),
        ("let uu = true;", "Leaf class:{uu};"),
        ("let uu = \"x\";", "div style:{uu};"),
        ("let title = \"x\";", "div {title};"),
        ("let data_uu = \"x\";", "div {data-uu};"),
        ("let title = \"x\";", "Leaf attr:{title};"),
        ("let uu = \"x\";", "div prop:{uu};"),
        ("let click = |_: leptos::ev::MouseEvent| {};", "div on:{click};"),
        ("let click = |_: leptos::ev::MouseEvent| {};", "Leaf on:{click};"),
        ("let a = 7;", "Props {a};"),
        ("let uu = leptos::tachys::html::attribute::title(\"x\");", "div {..uu.clone()};"),
        ("let uu = leptos::tachys::html::attribute::title(\"x\");", "Leaf {..uu.clone()};"),
        ("let uu = NodeRef::<leptos::html::Div>::new();", "div ref={uu};"),
        ("let uu = String::new();", "Twice clone:uu { {uu.clone()} }"),
        ("let uu = String::new();", "Each clone:uu |_| { {uu.clone()} }"),
        ("let uu = String::new();", "Layout { slot:Head clone:uu { {uu.clone()} } }"),
        ("let uu = 1; let vv = 2;", "Each |i| { {i + uu} Each |j| { {i + j + vv} } }"),
    ] {
        for w in ["%", "div { % }", "\"<\" % \">\"", "Card { % }", "Layout { slot:Head { % } }", "Each |_| { % }"] {
            let d = w.replace('%', d);
            // calls it more than once
            progs.push(silent(format!("{def} html(mview! {{ {d} }})")));
        }
    }
    c.progs(&format!("used{at}"), "variables, functions, constants, macros, imports, types, components that only a document uses, in every place and form: no warnings at all", progs);
    }
    c.edition = "2021";
}
