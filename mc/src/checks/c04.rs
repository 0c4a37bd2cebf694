//! Listeners, properties, directives and refs of elements.
use super::*;
use crate::tables;

pub fn on(ev: &str, modi: bool, f: &str) -> At {
    let name = if f.starts_with("h") { f.to_string() } else { "{closure}".into() };
    At::Dir { dir: "on".into(), key: Key::Id(ev.into()), modi: modi.then(|| "undelegated".into()), val: Some(block(&handler(f), Rv::Fun(name))) }
}
/// The handler must not leave the event type open.
fn handler(f: &str) -> String { f.to_string() }

pub fn dir(d: &str, key: &str, val: Option<Val>) -> At { At::Dir { dir: d.into(), key: Key::Id(key.into()), modi: None, val } }
pub fn dirs(d: &str, key: &str, val: Option<Val>) -> At { At::Dir { dir: d.into(), key: Key::Str(key.into()), modi: None, val } }

pub const PRE: &str = "let value = \"pv\"; let inner_x = 9; let click = h3::<leptos::ev::MouseEvent>; let r#input = h4::<leptos::ev::Event>;";

pub fn atoms() -> Vec<At> {
    vec![
        on("click", false, "h1"),
        dir("prop", "value", Some(str_lit("p"))),
        dir("use", "d1", None),
        on("input", true, "h2"),
        on("click", true, "|_| ()"),
        At::DirShort { dir: "on".into(), key: "click".into(), modi: None, rv: Rv::Fun("h3".into()), lazy: false },
        At::DirShort { dir: "on".into(), key: "input".into(), modi: Some("undelegated".into()), rv: Rv::Fun("h4".into()), lazy: false },
        dir("prop", "inner-x", Some(lit("3", Rv::i(3)))),
        At::DirShort { dir: "prop".into(), key: "value".into(), modi: None, rv: Rv::s("pv"), lazy: false },
        At::DirShort { dir: "prop".into(), key: "inner-x".into(), modi: None, rv: Rv::i(9), lazy: false },
        dirs("prop", "odd name!", Some(block("true", Rv::Bool(true)))),
        dir("prop", "r#type", Some(bracket("\"lz\"", Rv::s("lz")))),
        dir("use", "d2", Some(lit("5", Rv::i(5)))),
        dir("use", "d3", Some(str_lit("q"))),
        dir("use", "d3", Some(block("4", Rv::i(4)))),
        At::Kv("ref".into(), block("nref(\"r1\")", Rv::s("r1"))),
        At::Kv("r#ref".into(), block("nref(\"r2\")", Rv::s("r2"))),
    ]
}

/// As an expression.
fn plain_value(v: &str) -> String {
    if let Some(x) = v.strip_prefix("f[") {
        return format!("(|| format!({})", x.strip_suffix(']').unwrap()) + ")";
    }
    if let Some(x) = v.strip_prefix('[') {
        return format!("(|| {})", x.strip_suffix(']').unwrap());
    }
    v.to_string()
}

impl Child {
    /// A leaf has no children.
    fn only_leaf(mut self, t: &Tag) -> Self {
        if let (Child::El(e), Kind::Comp) = (&mut self, t.kind) {
            e.kids = None;
        }
        self
    }
}

/// Listeners, properties and directives of the same name.
pub fn same_names(component: bool) -> Vec<Vec<At>> {
    let sh = |d: &str, k: &str, rv: Rv| At::DirShort { dir: d.into(), key: k.into(), modi: None, rv, lazy: false };
    let mut v = vec![
        vec![on("click", false, "h1"), on("click", true, "h2"), on("click", false, "|_| ()"), sh("on", "click", Rv::Fun("h3".into()))],
        vec![dir("prop", "value", Some(str_lit("p"))), dir("prop", "value", Some(lit("1", Rv::i(1)))), dirs("prop", "value", Some(block("true", Rv::Bool(true)))), sh("prop", "value", Rv::s("pv"))],
        vec![dir("use", "d2", Some(lit("5", Rv::i(5)))), dir("use", "d2", Some(block("6", Rv::i(6)))), dir("use", "d1", None), dir("use", "d3", Some(str_lit("q")))],
    ];
    if !component {
        v.push(vec![At::Kv("ref".into(), block("nref(\"r1\")", Rv::s("r1"))), At::Kv("ref".into(), block("nref(\"r2\")", Rv::s("r2")))]);
    }
    v
}

pub fn run(c: &mut Ctx) {
    let kinds = super::c02::kinds();
    let end = |e: Elem, k: usize| if k % 2 == 0 { e.c() } else { e.kids(vec![txt("k")]).c() };

    let mut docs = vec![];
    for (i, (ev, _)) in tables::EVENTS.iter().enumerate() {
        for m in [false, true] {
            docs.push(doc("", vec![end(el(kinds[i % 4].clone()).at(on(ev, m, "h1")), i)]));
        }
        if !ev.contains(char::is_uppercase) {
            let m = (i % 2 == 0).then(|| "undelegated".to_string());
            docs.push(doc(
                &format!("let r#{ev} = h2;"),
                vec![end(el(kinds[(i + 1) % 4].clone()).at(At::DirShort { dir: "on".into(), key: ev.to_string(), modi: m, rv: Rv::Fun("h2".into()), lazy: false }), i)],
            ));
        }
    }
    c.docs("events", "every event leptos knows, plain, undelegated and as a shorthand", docs);

    let mut docs = vec![];
    for (i, v) in super::c02::values().into_iter().enumerate() {
        if v.src.contains("\\n") || v.src == "{None::<&str>}" || v.src.contains("1.5") || v.src.starts_with('\'') {
            continue;
        }
        if v.src == "{Some(\"y\")}" {
            continue;
        }
        for (j, t) in kinds.iter().enumerate() {
            docs.push(doc("", vec![end(el(t.clone()).at(if j % 2 == 0 { dir("prop", "value", Some(v.clone())) } else { dirs("prop", "a b", Some(v.clone())) }), i + j)]));
        }
    }
    for (i, name) in super::c02::lexicon(c.b(1, 2)).iter().enumerate() {
        let m = super::c02::meant(name);
        docs.push(doc("", vec![end(el(kinds[i % 4].clone()).at(dir("prop", name, Some(lit("1", Rv::i(1))))), i)]));
        let s = snake(&m);
        if !s.chars().all(|c| c == '_') {
            docs.push(doc(&format!("let r#{s} = 2;"), vec![end(el(kinds[i % 4].clone()).at(At::DirShort { dir: "prop".into(), key: name.clone(), modi: None, rv: Rv::i(2), lazy: false }), i)]));
        }
    }
    c.docs("props", "properties: values of every form on 4 kinds of element; kebab-case names", docs);

    let atoms = atoms();
    let mut docs = vec![];
    for n in 1..=c.b(2, 3) {
        for s in seqs(atoms.len(), n) {
            for (j, t) in kinds.iter().enumerate() {
                if n >= 2 && (s[0] + s[1]) % 4 != j || n == 3 && s[2] % 2 == 1 {
                    continue;
                }
                docs.push(doc(PRE, vec![end(el(t.clone()).ats(s.iter().map(|&i| atoms[i].clone()).collect()), s[n - 1])]));
            }
        }
    }
    c.docs("sequences", "all sequences of up to 2 (3) of 17 directives", docs);

    let mut docs = vec![];
    let other: Vec<At> = vec![
        At::Kv("class".into(), str_lit("x")),
        At::Kv("data-x".into(), lit("1", Rv::i(1))),
        At::Flag("hidden".into()),
        dir("class", "c", Some(lit("true", Rv::Bool(true)))),
        dir("style", "top", Some(str_lit("1px"))),
        At::Kv("title".into(), bracket("\"t\"", Rv::s("t"))),
    ];
    for a in &atoms {
        for (j, b) in other.iter().enumerate() {
            let e = el(kinds[j % 4].clone());
            docs.push(doc(PRE, vec![end(e.clone().at(a.clone()).at(b.clone()), j)]));
            docs.push(doc(PRE, vec![end(e.sel(Sel::Class("s".into())).at(b.clone()).at(a.clone()), j + 1)]));
        }
    }
    c.docs("mixed", "17 directives before and after 6 other attributes", docs);

    let mut docs = vec![];
    for ctx in CONTEXTS {
        for (i, a) in atoms.iter().enumerate() {
            if matches!(a, At::Kv(..)) && *ctx == "fn" {
                continue;
            }
            for t in &kinds[..c.b(2, 4)] {
                docs.push(doc(PRE, place(ctx, vec![el(html("br")).c(), el(t.clone()).at(a.clone()).kids(vec![el(html("i")).at(atoms[(i + 1) % 15].clone()).c()]).c()])));
            }
        }
    }
    c.docs("places", "17 directives in each of 10 kinds of parent, with a second inside", docs);

    // parameters of directives are converted to what the directive takes
    let mut docs = vec![];
    let own = |src: &str, shown: &str| (src.to_string(), shown.to_string());
    let lits = [
        own("\"s\"", "&str:s"),
        own("r#\"q\"#", "&str:q"),
        own("'c'", "char:c"),
        own("1", "i32:1"),
        own("1u8", "u8:1"),
        own("0x1F", "i32:31"),
        own("b'a'", "u8:97"),
        own("1.5", "f64:1.5"),
        own("2f32", "f32:2"),
        own("true", "bool:true"),
        own("false", "bool:false"),
        own("b\"by\"", "bytes:2"),
        own("{String::from(\"o\")}", "String:o"),
        own("{let q = 2; q as u8}", "u8:2"),
        own("{()}", "unit:"),
        own("{Some('x')}", "opt:x"),
        own("{(1, 'a')}", "pair:1a"),
        own("{if true { 'y' } else { 'n' }}", "char:y"),
        own("[3]", "fn:3"),
        own("f[\"{}\", 4]", "fns:4"),
        own("{|| 5}", "fn:5"),
    ];
    for (i, (v, shown)) in lits.iter().enumerate() {
        for (key, want) in [("d4", format!("DQ({shown:?})")), ("d5", format!("Some(DQ({shown:?}))"))] {
            // `Into` does not convert twice
            let v = if key == "d5" { format!("{{DQ::from({})}}", plain_value(v)) } else { v.clone() };
            for t in kinds.iter().cloned().chain([comp("Leaf")]) {
                let a = dir("use", key, Some(Val { src: v.clone(), rv: Rv::Fun(want.clone()), lazy: false }));
                docs.push(doc("", vec![end(el(t.clone()).at(a.clone()), i).only_leaf(&t)]));
                docs.push(doc("", vec![end(el(t.clone()).at(dir("class", "k", Some(lit("true", Rv::Bool(true))))).at(a).at(dir("use", "d3", Some(str_lit("q")))), i + 1).only_leaf(&t)]));
            }
        }
    }
    c.docs("parameters", "21 literals and blocks as parameters of directives that take another type, on 4 kinds of element and a component", docs);

    let mut docs = vec![];
    for t in kinds.iter() {
        docs.extend(mixes(t, c.b(3, 5)));
    }
    c.docs("mixes", "all sequences of up to 3 (5) of attributes, selectors-like directives and spreads, all of other names, on 4 kinds of element", docs);

    let mut docs = vec![];
    let all = names::names(c.b(2, 3));
    let n = all.len();
    for (i, p) in names::packs(all, 9).iter().enumerate() {
        docs.push(doc("", vec![el(kinds[i % 4].clone()).ats(p.iter().enumerate().map(|(i, n)| dir("prop", n, Some(lit(&i.to_string(), Rv::i(i as i64))))).collect()).c()]));
        docs.push(names::short_doc(&kinds[(i + 1) % 4], "prop", p));
    }
    c.docs("all names", &format!("{n} names of properties: {}; in packs of 9 alike names, also as shorthands", names::WHAT), docs);

    // the same again
    let mut docs = vec![];
    for t in super::c02::kinds() {
        docs.extend(repeats(PRE, &t, &same_names(false), c.b(3, 4)));
    }
    c.docs("repeated", "all sequences of up to 3 (4) of the same listener, property or directive, next to each other and apart", docs);
}
