//! When, where and how often values are evaluated.
use super::{c04::dir, *};
use crate::{ctx::Want, html as dom};
use std::rc::Rc;

/// Expected evaluations: while building, while rendering.
#[derive(Default, Clone)]
struct Log {
    built: Vec<String>,
    rendered: Vec<String>,
}

/// Names of the evaluations in a value.
fn names(src: &str) -> Vec<String> {
    src.split("ev(\"").skip(1).map(|s| s.split('"').next().unwrap().to_string()).collect()
}

fn val(v: &Val, late: bool, times: usize, l: &mut Log) {
    for _ in 0..times {
        if late || v.lazy {
            l.rendered.extend(names(&v.src));
        } else {
            l.built.extend(names(&v.src));
        }
    }
}

fn walk(k: &[Child], late: bool, l: &mut Log) {
    for c in k {
        match c {
            Child::Val(v) => val(v, late, 1, l),
            Child::El(e) => elem(e, late, l),
            Child::Slot(_) => {}
        }
    }
}

fn slots(k: &[Child], late: bool, l: &mut Log) {
    for c in k {
        if let Child::Slot(s) = c {
            attrs(s, late, 1, l);
            let times = if matches!(&*s.tag.name, "TwoWords" | "Row") { 2 } else { 1 };
            if let Some((_, k)) = &s.kids {
                slots(k, late, l);
                for _ in 0..times {
                    walk(k, late, l);
                }
            }
        }
    }
}

fn attrs(e: &Elem, late: bool, calls: usize, l: &mut Log) {
    for a in &e.attrs {
        match a {
            At::Kv(_, v) if e.tag.name == "Calls" && v.lazy => {
                for _ in 0..calls {
                    let mut w = v.clone();
                    w.lazy = false;
                    val(&w, late, 2, l);
                }
            }
            At::Kv(_, v) => val(v, late, 1, l),
            At::Dir { val: Some(v), .. } => val(v, late, 1, l),
            At::Spread(s, _) => val(&Val { src: s.clone(), rv: Rv::Nothing, lazy: false }, late, 1, l),
            _ => {}
        }
    }
}

fn elem(e: &Elem, late: bool, l: &mut Log) {
    attrs(e, late, 1, l);
    let Some((_, k)) = &e.kids else { return };
    if e.tag.kind != Kind::Comp {
        return walk(k, late, l);
    }
    slots(k, late, l);
    match &*e.tag.name {
        "Never" => {}
        "Lazy" => walk(k, true, l),
        "Twice" | "Each" => (0..2).for_each(|_| walk(k, late, l)),
        _ => walk(k, late, l),
    }
}

/// Gives every evaluation its own name.
pub fn number(k: &mut [Child], n: &mut usize) {
    fn v(src: &mut String, n: &mut usize) {
        while src.contains('@') {
            *src = src.replacen('@', &n.to_string(), 1);
            *n += 1;
        }
    }
    for c in k {
        match c {
            Child::Val(x) => v(&mut x.src, n),
            Child::El(e) | Child::Slot(e) => {
                for a in &mut e.attrs {
                    match a {
                        At::Kv(_, x) | At::Dir { val: Some(x), .. } => v(&mut x.src, n),
                        At::Spread(s, _) => v(s, n),
                        _ => {}
                    }
                }
                if let Some((_, k)) = &mut e.kids {
                    number(k, n);
                }
            }
        }
    }
}

fn case(pre: &str, mut kids: Vec<Child>) -> (crate::real::Prog, Want) {
    number(&mut kids, &mut 0);
    let mut l = Log::default();
    walk(&kids, false, &mut l);
    let want_dom = crate::ast::model(&kids);
    let code = format!("{pre} probe(|| mview! {{ {} }})", src(&kids));
    let text = format!("{} | {} | {}", l.built.join(","), l.rendered.join(","), dom::show(&want_dom));
    let judge = move |out: &str| -> Option<String> {
        let p: Vec<&str> = out.splitn(3, '|').collect();
        let list = |s: &str| -> Vec<String> { s.split(',').filter(|x| !x.is_empty()).map(str::to_string).collect() };
        let sorted = |v: &[String]| {
            let mut v = v.to_vec();
            v.sort();
            v
        };
        let kids = |v: &[String]| v.iter().filter(|x| x.starts_with('c')).cloned().collect::<Vec<_>>();
        let (b, r) = (list(p[0]), list(p[1]));
        if sorted(&b) != sorted(&l.built) {
            return Some(format!("evaluated while building: {b:?}, want {:?}", l.built));
        }
        if sorted(&r) != sorted(&l.rendered) {
            return Some(format!("evaluated while rendering: {r:?}, want {:?}", l.rendered));
        }
        if kids(&b) != kids(&l.built) {
            return Some(format!("children evaluated in the order {b:?}, want {:?}", l.built));
        }
        match dom::parse(p[2]) {
            Ok(d) if d == want_dom => None,
            Ok(d) => Some(format!("want {}  got {}", dom::show(&want_dom), dom::show(&d))),
            Err(e) => Some(e),
        }
    };
    (crate::real::Prog { items: String::new(), code }, Want::Judge(text, Rc::new(judge)))
}

/// Forms of a value; `p` is the prefix of the name.
fn forms(p: &str, e: &str, rv: Rv) -> Vec<Val> {
    let x = format!("ev(\"{p}@\", {e})");
    vec![
        block(&x, rv.clone()),
        bracket(&x, rv.clone()),
        blockfn(&format!("move || {x}"), rv.clone()),
        block(&format!("ev(\"{p}@\", ()); {x}"), rv.clone()),
        bracket(&format!("let q = {x}; q"), rv.clone()),
        blockfn(&format!("|| {x}"), rv.clone()),
        block(&format!("{{ {x} }}"), rv.clone()),
        block(&format!("let q = {x}; move || q.clone()"), rv),
    ]
}

fn texts(p: &str, e: &str, rv: &str) -> Vec<Val> {
    let mut v = forms(p, e, Rv::s(rv));
    v.push(fmt(&format!("\"{{}}\", ev(\"{p}@\", {e})"), rv));
    v.push(fmt(&format!("\"{{}}{{}}\", ev(\"{p}@\", \"\"), ev(\"{p}@\", {e})"), rv));
    v.push(fmt(&format!("\"{{z}}\", z = ev(\"{p}@\", {e})"), rv));
    v
}

fn places() -> Vec<&'static str> {
    let mut v = CONTEXTS.to_vec();
    v.extend(["never", "lazy", "never in fn", "lazy in each"]);
    v
}

fn put(ctx: &str, k: Vec<Child>) -> Vec<Child> {
    match ctx {
        "never" => vec![el(comp("Never")).kids(k).c()],
        "lazy" => vec![el(comp("Lazy")).kids(k).c()],
        "never in fn" => vec![el(comp("Twice")).kids(vec![el(comp("Never")).pkids(k).c(), txt("n")]).c()],
        "lazy in each" => vec![el(comp("Each")).args("|_|", &["_"]).kids(vec![el(comp("Lazy")).kids(k).c()]).c()],
        c => place(c, k),
    }
}

pub fn run(c: &mut Ctx) {
    // every form in every position
    let kv = |k: &str, v: Val| At::Kv(k.into(), v);
    let mut cases: Vec<(Child, bool)> = vec![];
    for v in texts("c", "\"x\"", "x") {
        cases.push((Child::Val(v), true));
    }
    for (t, names) in [(html("div"), vec!["title", "data-x", "class", "aria-label"]), (tag(Kind::Svg, "rect"), vec!["width", "class"]), (tag(Kind::Math, "mi"), vec!["data-x"]), (tag(Kind::Web, "x-el"), vec!["foo", "class"])] {
        for n in names {
            for v in texts("a", "\"x\"", "x") {
                cases.push((el(t.clone()).at(kv(n, v)).kids(vec![Child::Val(block("ev(\"c@\", 1)", Rv::i(1)))]).c(), true));
            }
        }
        for v in texts("a", "\"top:1px\"", "top:1px") {
            cases.push((el(t.clone()).at(kv("style", v)).c(), true));
        }
        for v in forms("a", "true", Rv::Bool(true)) {
            cases.push((el(t.clone()).at(dir("class", "k", Some(v.clone()))).c(), true));
            if t.kind == Kind::Html {
                cases.push((el(html("input")).at(kv("disabled", v)).c(), true));
            }
        }
        for v in texts("a", "\"1px\"", "1px") {
            cases.push((el(t.clone()).at(dir("style", "top", Some(v))).c(), true));
        }
        for v in forms("a", "3", Rv::i(3)) {
            if !v.src.contains("let q = ev") || v.lazy {
                cases.push((el(t.clone()).at(dir("prop", "v", Some(v))).c(), true));
            }
        }
        for a in [
            At::Dir { dir: "on".into(), key: Key::Id("click".into()), modi: None, val: Some(block("ev(\"a@\", h1)", Rv::Fun("h1".into()))) },
            dir("use", "d2", Some(block("ev(\"a@\", 2)", Rv::i(2)))),
            At::Kv("ref".into(), block("ev(\"a@\", nref(\"r1\"))", Rv::s("r1"))),
            At::Spread("ev(\"a@\", leptos::tachys::html::attribute::custom::custom_attribute(\"data-sp\", \"6\"))".into(), vec![Eff::Attr("data-sp".into(), Rv::s("6"))]),
        ] {
            cases.push((el(t.clone()).at(a).kids(vec![txt("t")]).c(), false));
        }
    }
    for (name, kids) in [("Leaf", None), ("Card", Some(vec![Child::Val(block("ev(\"c@\", 1)", Rv::i(1)))])), ("Lazy", Some(vec![Child::Val(bracket("ev(\"c@\", 1)", Rv::i(1)))]))] {
        let host = |a: At| {
            let e = el(comp(name)).at(a);
            match &kids {
                None => e.c(),
                Some(k) => e.kids(k.clone()).c(),
            }
        };
        for v in texts("a", "\"x\"", "x") {
            for n in ["title", "data-x", "class"] {
                cases.push((host(dir("attr", n, Some(v.clone()))), true));
            }
        }
        for v in texts("a", "\"1px\"", "1px") {
            cases.push((host(dir("style", "top", Some(v))), true));
        }
        for v in forms("a", "true", Rv::Bool(true)) {
            cases.push((host(dir("class", "k", Some(v.clone()))), true));
        }
        for v in forms("a", "3", Rv::i(3)) {
            if !v.src.contains("let q = ev") || v.lazy {
                cases.push((host(dir("prop", "v", Some(v))), true));
            }
        }
        for a in [
            At::Dir { dir: "on".into(), key: Key::Id("click".into()), modi: None, val: Some(block("ev(\"a@\", h1)", Rv::Fun("h1".into()))) },
            dir("use", "d2", Some(block("ev(\"a@\", 2)", Rv::i(2)))),
            At::Spread("ev(\"a@\", leptos::tachys::html::attribute::custom::custom_attribute(\"data-sp\", \"6\"))".into(), vec![Eff::Attr("data-sp".into(), Rv::s("6"))]),
        ] {
            cases.push((host(a), true));
        }
    }
    for k in ["a", "the-long-name"] {
        cases.push((el(comp("Props")).at(kv(k, block("ev(\"a@\", 3)", Rv::i(3)))).at(kv("b", block("ev(\"a@\", \"q\")", Rv::s("q")))).kids(vec![Child::Val(block("ev(\"c@\", 1)", Rv::i(1)))]).c(), true));
    }
    for v in [bracket("ev(\"a@\", 2)", Rv::i(2)), fmt("\"{}\", ev(\"a@\", 3)", "3"), blockfn("|| ev(\"a@\", 4)", Rv::i(4))] {
        cases.push((el(comp("Calls")).at(kv("f", v)).c(), true));
    }
    for v in [block("ev(\"s@\", \"lb\")", Rv::s("lb")), block("ev(\"s@\", ()); String::from(\"lb\")", Rv::s("lb"))] {
        for k in [bracket("ev(\"s@\", 1)", Rv::i(1)), block("ev(\"s@\", 1)", Rv::i(1)), fmt("\"{}\", ev(\"s@\", 3)", "3")] {
            cases.push((
                el(comp("Layout"))
                    .kids(vec![
                        el(comp("Head")).at(kv("label", v.clone())).kids(vec![Child::Val(k.clone())]).slot(),
                        el(comp("TwoWords")).kids(vec![Child::Val(k.clone()), Child::Val(block("ev(\"s@\", 2)", Rv::i(2)))]).slot(),
                        Child::Val(k.clone()),
                        el(comp("Item")).at(kv("n", block("ev(\"s@\", 5)", Rv::i(5)))).slot(),
                        el(comp("Outer")).kids(vec![el(comp("Inner")).at(kv("label", v.clone())).kids(vec![Child::Val(k)]).slot()]).slot(),
                    ])
                    .c(),
                true,
            ));
        }
    }
    let mut progs = vec![];
    for (i, (k, multi)) in cases.iter().enumerate() {
        for (j, p) in places().iter().enumerate() {
            if !multi && matches!(*p, "fn" | "slot" | "args" | "never in fn" | "lazy in each" | "lazy") && src(&[k.clone()]).contains("nref") {
                continue;
            }
            // every position in every place; in the quick tier one third of the forms
            if c.quick() && (i + j) % 3 != 0 {
                continue;
            }
            progs.push(case("", put(p, vec![k.clone()])));
        }
    }
    c.progs("positions", "every value form as child, attribute, directive, prop, slot prop and spread, in 14 kinds of parent (quick: one in three)", progs);

    // children, in every order
    let b = || Child::Val(block("ev(\"c@\", 1)", Rv::i(1)));
    let r = || Child::Val(bracket("ev(\"c@\", 2)", Rv::i(2)));
    let at = || kv("data-x", block("ev(\"a@\", 3)", Rv::i(3)));
    let atoms: Vec<Child> = vec![
        b(),
        r(),
        Child::Val(fmt("\"{}\", ev(\"c@\", 3)", "3")),
        el(html("p")).at(at()).kids(vec![b(), r(), el(html("i")).kids(vec![b()]).c()]).c(),
        el(comp("Card")).kids(vec![b(), r()]).c(),
        el(comp("Twice")).kids(vec![b(), el(html("u")).kids(vec![r()]).c()]).c(),
        el(comp("Never")).kids(vec![b(), r()]).c(),
        el(comp("Lazy")).kids(vec![b(), r(), b()]).c(),
        el(comp("Each")).args("|_|", &["_"]).kids(vec![b(), el(comp("Card")).kids(vec![b(), r()]).c()]).c(),
        txt("t"),
    ];
    let mut progs = vec![];
    for n in 0..=c.b(3, 4) {
        for s in seqs(atoms.len(), n) {
            let j: usize = s.iter().enumerate().map(|(i, x)| i * 3 + x).sum();
            if n == 4 && j % 4 != 0 {
                continue;
            }
            let p = ["root", "element", "component", "lazy", "fn", "fragment", "args"][j % 7];
            progs.push(case("", put(p, s.iter().map(|&i| atoms[i].clone()).collect())));
        }
    }
    c.progs("order", "all sequences of up to 3 (4, one in four) of 10 children that record their evaluation", progs);

    // ownership: what a closure uses may be gone when it runs
    let mut progs = vec![];
    let t = Want::Text;
    for (pos, want) in [
        ("$", "<>Q</>"),
        ("div { $ }", ""),
        ("div title=$;", ""),
        ("div data-x=$;", ""),
        ("div class=$;", ""),
        ("div style:top=$;", ""),
        ("div prop:v=$;", ""),
        ("rect width=$;", ""),
        ("x-el foo=$;", ""),
        ("Card { $ }", ""),
        ("Card { div { $ } \"x\" }", ""),
        ("Card attr:title=$ { \"x\" }", ""),
        ("Leaf style:top=$;", ""),
        ("Leaf attr:data-x=$;", ""),
        ("Leaf prop:v=$;", ""),
        ("Calls f=$;", ""),
        ("\"a\" $ br;", ""),
        ("Layout { slot:Head { $ } }", ""),
    ] {
        let _ = want;
        for (form, once) in OWNING.map(|f| (f, false)) {
            let _ = once;
            let m = pos.replace('$', form);
            // twice in a component that may run its children more than once needs a clone
            if pos.contains("slot:Head") {
                // children of slots are Fn: a closure that moves `s` out cannot be built twice
                continue;
            }
            let code = format!("let v = {{ let s = String::from(\"own\"); mview! {{ {m} }} }}; html(v).matches(\"own\").count().to_string()");
            let n = if pos.contains("Calls") { "2" } else { "1" };
            progs.push((crate::real::Prog { items: String::new(), code }, t(n.into())));
            // and the original is gone
            let code = format!("let s = String::from(\"own\"); let v = mview! {{ {m} }}; drop(s); html(v)");
            progs.push((crate::real::Prog { items: String::new(), code }, Want::Error(None)));
            // a copy is taken when the view is made
            if !OWNING[..4].contains(&form) {
                continue;
            }
            let m = pos.replace('$', &form.replace("s.clone()", "s").replace("+ \"\"", ""));
            let code = format!("let mut s = 1237; let v = mview! {{ {m} }}; s = 4561; let _ = s; html(v).matches(\"1237\").count().to_string()");
            if !m.contains("style:top=[") && !m.contains("class=[") {
                progs.push((crate::real::Prog { items: String::new(), code }, t(n.into())));
            }
        }
        // blocks and literals evaluate in place, in the function itself
        if !pos.contains("Card { ") && !pos.contains("slot:") && !pos.contains("Calls") {
            let m = pos.replace('$', "{if go { return String::from(\"left\"); } \"x\"}");
            progs.push((crate::real::Prog { items: String::new(), code: format!("let go = std::hint::black_box(true); let v = mview! {{ {m} }}; html(v)") }, t("left".into())));
        }
    }
    c.progs("ownership", "18 positions of 23 closures whose variables are out of scope, moved or changed", progs);

    formats(c);
}

/// Closures that must own `s`.
const OWNING: [&str; 23] = [
    "[s.clone()]",
    "f[\"{s}\"]",
    "f[\"{}\", s]",
    "[let q = s.clone(); q + \"\"]",
    "[(move |x: &str| x.to_string())(&s)]",
    "[let g = |x: &str| x.to_string(); g(&s)]",
    "[let g = move |x: &str| x.to_string(); g(&s)]",
    "[let r = &s; let g = move || r.to_string(); g()]",
    "[Some(&s).map(|x| x.to_string()).unwrap()]",
    "[let f = \"{}\"; let _ = f; format!(\"{s}\")]",
    "[let g = { let s = s.clone(); move || s.clone() }; g()]",
    "[if s.len() > 1 { s.clone() } else { String::new() }]",
    "[match &*s { \"own\" => s.clone(), _ => String::new() }]",
    "[{ s.clone() }]",
    "[{ let s = &s; s.to_string() }]",
    "[return s.clone()]",
    "[format!(\"{s}\")]",
    "[format!(\"{}\", s)]",
    "[[&*s].concat()]",
    "[(s.clone(),).0]",
    "[&s; s.clone()]",
    "[for _ in 0..1 { let _ = &s; } s.clone()]",
    "f[\"{}\", (|| &s)()]",
];

/// Pieces of format strings and their positional arguments.
const PIECES: &[(&str, &[&str])] = &[
    ("{{", &[]),
    ("}}", &[]),
    ("{}", &["\"p\""]),
    ("{x}", &[]),
    ("{0}", &[]),
    ("{:?}", &["s"]),
    ("{:>5}", &["x"]),
    ("{x:<w$}", &[]),
    ("{:.*}", &["1", "1.25"]),
    ("{n:+}", &[]),
    ("{:#x}", &["{ let q = 255; q }"]),
    ("a", &[]),
    ("\\n", &[]),
    ("\\\"", &[]),
    ("%", &[]),
    ("é", &[]),
    ("<&>", &[]),
    (" ", &[]),
    ("\\u{41}", &[]),
    ("$f[]", &[]),
];

/// `f[..]` is what `format!(..)` gives, whatever there is to format.
fn formats(c: &mut Ctx) {
    let places: &[(&str, &str)] = &[
        ("p { f[$] }", "p { {format!($)} }"),
        ("f[$]", "{format!($)}"),
        ("Card { f[$] br; }", "Card { {format!($)} br; }"),
        ("div title=f[$];", "div title={format!($)};"),
        ("div data-x=f[$];", "div data-x={format!($)};"),
        ("div class=f[$];", "div class={format!($)};"),
        ("div style:top=f[$];", "div style:top={format!($)};"),
        ("circle cx=f[$];", "circle cx={format!($)};"),
        ("my-el y=f[$];", "my-el y={format!($)};"),
        ("Leaf attr:title=f[$];", "Leaf attr:title={format!($)};"),
        ("Leaf attr:data-x=f[$];", "Leaf attr:data-x={format!($)};"),
        ("Calls f=f[$];", "Calls f={move || format!($)};"),
        ("Layout { slot:Head { f[$] } }", "Layout { slot:Head { {format!($)} } }"),
    ];
    let mut args: Vec<(String, bool)> = vec![];
    for n in 0..=c.b(2, 3) {
        for s in seqs(PIECES.len(), n) {
            let lit: String = s.iter().map(|&i| PIECES[i].0).collect();
            let mut pos: Vec<String> = s.iter().flat_map(|&i| PIECES[i].1).map(|a| a.to_string()).collect();
            if lit.contains("{0}") && pos.is_empty() {
                pos.push("x + 1".into());
            }
            if lit.contains("{n") {
                pos.push("n = 4".into());
            }
            let a: String = pos.iter().map(|p| format!(", {p}")).collect();
            args.push((format!("\"{lit}\"{a}"), n <= 1));
            if n <= 1 {
                args.push((format!("\"{lit}\"{a},"), true));
                args.push((format!("concat!(\"{lit}\", \"z\"){a}"), false));
                if !lit.contains('\\') {
                    args.push((format!("r\"{lit}\"{a}"), true));
                    args.push((format!("r##\"\"#{lit}\"##{a}"), true));
                }
            }
        }
    }
    for a in ["\"{}\", format!(\"{x}\")", "\"{}\", f", "\"{a} {b}\", a = 1, b = 2", "\"{a} {a}\", a = (1, 2).1", "\"{1} {0}\", 1, 2", "\"{}\", if x > 3 { \"big\" } else { \"small\" }", "\"{}\", [1, 2].len()", "\"{}\", |a: i32| a", "\"{:?}\", vec![1, 2]", "stringify!(a b)", "\"{}\", { x } as u8", "\"{}\", s.len() < 3 && x > 1", "\"{:?}\", (1, \"a,b\")", "\"{:w$.p$}\", 1.5, p = 3", "\"{}\", x,"] {
        if !a.contains("|a:") {
            args.push((a.to_string(), true));
        }
    }
    let mut progs = vec![];
    for (a, everywhere) in args {
        // captured names do not reach through `concat!`
        if a.starts_with("concat!") && (a.contains("{x") || a.contains("w$")) {
            continue;
        }
        let ps = if everywhere { places } else { &places[..1] };
        let parts: Vec<String> = ps.iter().flat_map(|(p, q)| [p, q]).map(|p| format!("html(mview! {{ {} }})", p.replace('$', &a))).collect();
        let code = format!("let (x, w, s, f) = (7, 5, \"q\\\"\", 2); let _ = (x, w, s, f); [{}].join(\"\\u{{1}}\")", parts.join(", "));
        let n = ps.len();
        let judge = move |out: &str| -> Option<String> {
            let parts: Vec<_> = out.split('\u{1}').collect();
            if parts.len() != 2 * n {
                return Some(format!("{} results", parts.len()));
            }
            parts.chunks(2).find_map(|p| {
                let d = [0, 1].map(|i| dom::parse(p[i]).map(|d| dom::show(&d)));
                (d[0].is_err() || d[0] != d[1]).then(|| format!("f[{}] renders as {:?}, format! as {:?}", a, d[0], d[1]))
            })
        };
        progs.push((crate::real::Prog { items: String::new(), code }, Want::Judge("the same as format!".into(), Rc::new(judge))));
    }
    c.progs("formats", "all sequences of up to 2 (3) of 20 pieces of format strings, up to 1 also raw, with trailing commas, by concat! and in 13 places, compared with format! in a block", progs);
}
