//! The same document, written with leptos's own macro.
use super::*;
use crate::{
    ctx::{Doc, Want},
    html as dom,
    real::{Prog, Res},
};
use std::{collections::HashSet, rc::Rc};

/// Values as Rust expressions.
fn rust(v: &Val) -> String {
    let s = v.src.trim();
    if let Some(e) = s.strip_prefix('{') {
        format!("{{{}}}", &e[..e.len() - 1])
    } else if let Some(e) = s.strip_prefix('[') {
        format!("{{move || {{{}}}}}", &e[..e.len() - 1])
    } else if let Some(e) = s.strip_prefix("f[") {
        format!("{{move || ::std::format!({})}}", &e[..e.len() - 1])
    } else {
        s.to_string()
    }
}

/// Names that the other macro can write.
fn kebab(k: &str) -> Option<String> {
    if k.contains(' ') {
        return None;
    }
    let k = unraw(k);
    let ok = !k.is_empty()
        && k.split('-').enumerate().all(|(i, p)| !p.is_empty() && p.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && (i > 0 || !p.starts_with(|c: char| c.is_ascii_digit())));
    ok.then_some(k)
}

fn attr(a: &At, comp: bool) -> Option<String> {
    let dir = |dir: &str, key: &str, modi: &Option<String>, val: Option<String>| -> Option<String> {
        let m = modi.as_ref().map_or(String::new(), |m| format!(":{m}"));
        if dir == "use" || dir == "clone" {
            return Some(match val {
                Some(v) => format!("{dir}:{}={v}", snake(key)),
                None => format!("{dir}:{}", snake(key)),
            });
        }
        let v = val.unwrap_or("true".into());
        let key = if dir == "on" { snake(key) } else { key.to_string() };
        match kebab(&key) {
            Some(k) => Some(format!("{dir}:{k}{m}={v}")),
            None if !comp && (dir == "class" || dir == "style") => Some(format!("{dir}=({key:?}, {v})")),
            None => None,
        }
    };
    // props are named in snake case
    let name = |k: &str| -> Option<String> {
        let k = kebab(k)?;
        Some(match k.as_str() {
            "ref" if !comp => "node_ref".into(),
            k if comp => ident(k),
            k => k.into(),
        })
    };
    Some(match a {
        At::Kv(k, v) => format!("{}={}", name(k)?, rust(v)),
        At::Flag(k) => format!("{}=true", name(k)?),
        At::Short(k, _) => format!("{}={{{}}}", name(k)?, ident(k)),
        At::Dir { dir: d, key, modi, val } => dir(d, &key.name(), modi, val.as_ref().map(rust))?,
        At::DirShort { dir: d, key, modi, .. } => dir(d, key, modi, Some(format!("{{{}}}", ident(key))))?,
        At::Spread(e, _) => format!("{{..{e}}}"),
    })
}

fn ident(k: &str) -> String {
    let k = snake(k);
    if k == "type" || k == "for" || k == "as" || k == "loop" || k == "async" || k == "fn" { format!("r#{k}") } else { k }
}

fn elem(e: &Elem, slot: bool) -> Option<String> {
    let comp = e.tag.kind == Kind::Comp;
    let (open, close) = if comp {
        let open = e.tag.src.replace("::<", "<");
        let open = unraw(&open);
        (open.clone(), open)
    } else {
        let t = kebab(&e.tag.src)?;
        (t.clone(), t)
    };
    let mut s = format!("<{open}");
    if slot {
        let mut n = String::new();
        for (i, c) in unraw(&e.tag.src).chars().enumerate() {
            if c.is_ascii_uppercase() && i > 0 {
                n.push('_');
            }
            n.push(c.to_ascii_lowercase());
        }
        s += &format!(" slot:{n}");
    }
    let mut at = vec![];
    for a in &e.attrs {
        at.push(attr(a, comp)?);
    }
    // plain attributes come first in the other one
    let mut ids = vec![];
    for x in &e.sels {
        match x {
            Sel::Class(c) => at.push(attr(&At::Dir { dir: "class".into(), key: Key::Str(unraw(c)), modi: None, val: None }, comp)?),
            Sel::Id(i) => ids.push(unraw(i)),
        }
    }
    if !ids.is_empty() {
        at.push(format!("{}id={:?}", if comp { "attr:" } else { "" }, ids.join(" ")));
    }
    for a in at {
        s += " ";
        s += &a;
    }
    let kids = e.kids.as_ref().map_or(&[][..], |k| &k.1);
    if let Some(a) = &e.args {
        if !kids.is_empty() {
            s += &format!(" let({})", a.src.trim().strip_prefix('|')?.strip_suffix('|')?);
        }
    }
    Some(if kids.is_empty() { format!("{s}/>") } else { format!("{s}>{}</{close}>", view(kids)?) })
}

/// The document in the other language, as far as it can say it.
pub fn view(kids: &[Child]) -> Option<String> {
    let mut out = vec![];
    for k in kids {
        out.push(match k {
            Child::Val(v) => {
                let r = rust(v);
                if r.starts_with('{') { r } else { format!("{{{r}}}") }
            }
            Child::El(e) => elem(e, false)?,
            Child::Slot(e) => elem(e, true)?,
        });
    }
    Some(out.join(" "))
}

/// What the listeners, properties and the like amount to; namespaces are not
/// marked in elements that leptos makes strings of.
fn plain(d: &mut [dom::Dom]) {
    for x in d {
        if let dom::Dom::El(e) = x {
            e.ns.clear();
            plain(&mut e.kids);
        }
    }
}

fn compare(c: &mut Ctx, name: &str, bound: &str, docs: Vec<Doc>) {
    if crate::par::only().is_some() {
        return;
    }
    let mut seen = HashSet::new();
    let mut both = vec![];
    let mut no = 0;
    for d in docs {
        let key = format!("{}#{}#{}", d.items, d.pre, d.body());
        if !seen.insert(key) {
            continue;
        }
        match view(&d.kids) {
            Some(v) => both.push((Prog { items: d.items.clone(), code: format!("{} html(view! {{ {v} }})", d.pre) }, d)),
            None => no += 1,
        }
    }
    c.real().set_edition("2021");
    let theirs = c.real().run(&both.iter().map(|b| b.0.clone()).collect::<Vec<_>>());
    let mut progs = vec![];
    for ((v, d), r) in both.into_iter().zip(theirs) {
        let Res::Ok(s) = &r else {
            if std::env::var_os("MC_SKIPPED").is_some() {
                eprintln!("  {}\n    {}\n    {}", d.body(), v.code, r.short());
            }
            no += 1;
            continue;
        };
        let Ok(mut want) = dom::parse(s) else {
            no += 1;
            continue;
        };
        plain(&mut want);
        let vc = v.code;
        let judge = move |out: &str| -> Option<String> {
            let mut got = match dom::parse(out) {
                Ok(g) => g,
                Err(e) => return Some(format!("output is not a document ({e}): {out}")),
            };
            plain(&mut got);
            (got != want).then(|| format!("renders as {}, but {vc} as {}", dom::show(&got), dom::show(&want)))
        };
        progs.push((d.prog(), Want::Judge("the same as with view!".into(), Rc::new(judge))));
    }
    c.transitions += progs.len() as u64;
    c.progs(name, bound, progs);
    c.note(format!("{no} further documents cannot be written with view!"));
}

/// Documents that mix everything.
fn mixtures(c: &Ctx) -> Vec<Doc> {
    let kv = |k: &str, v: Val| At::Kv(k.into(), v);
    let dr = |d: &str, k: &str, v: Option<Val>| At::Dir { dir: d.into(), key: Key::Id(k.into()), modi: None, val: v };
    let s = str_lit;
    let fun = |f: &str| block(f, Rv::Fun(f.into()));
    let pre = "let title = \"ti\"; let n = 3; let yes = true;";
    let elem_attrs: Vec<Vec<At>> = vec![
        vec![],
        vec![kv("title", s("t")), At::Flag("hidden".into())],
        vec![At::Short("title".into(), Rv::s("ti")), kv("data-x", bracket("n", Rv::i(3)))],
        vec![kv("class", s("a b")), dr("class", "c", Some(block("yes", Rv::Bool(true)))), dr("class", "d", Some(lit("false", Rv::Bool(false))))],
        vec![kv("style", s("top:1")), dr("style", "left", Some(fmt("\"{n}px\"", "3px")))],
        vec![dr("on", "click", Some(fun("h1"))), dr("prop", "value", Some(lit("1", Rv::i(1)))), dr("use", "d1", None), dr("use", "d2", Some(lit("3", Rv::i(3))))],
        vec![At::Spread("leptos::tachys::html::attribute::lang(\"l\")".into(), vec![]), kv("id", s("i")), kv("inert", block("n == 3", Rv::Bool(true)))],
        vec![kv("class", fmt("\"x{n}\"", "x3")), kv("lang", lit("None::<String>", Rv::Nothing)).clone()].into_iter().take(1).collect(),
    ];
    let comp_attrs: Vec<Vec<At>> = vec![
        vec![],
        vec![dr("class", "a", None), dr("class", "b-c", Some(block("yes", Rv::Bool(true))))],
        vec![dr("style", "left", Some(s("1px"))), dr("attr", "title", Some(s("t")))],
        vec![dr("attr", "data-x", Some(lit("1", Rv::i(1)))), dr("prop", "p", Some(s("v"))), dr("on", "click", Some(fun("h2")))],
        vec![dr("use", "d1", None), At::Spread("leptos::tachys::html::attribute::lang(\"l\")".into(), vec![])],
        vec![dr("attr", "class", Some(s("k l"))), dr("attr", "id", Some(s("i")))],
    ];
    let sels: Vec<Vec<Sel>> = vec![vec![], vec![Sel::Class("s1".into())], vec![Sel::Id("j".into()), Sel::Class("s-2".into()), Sel::Class("s3".into())]];
    let leaf = |i: usize| -> Child {
        match i {
            0 => txt("t<&>"),
            1 => Child::Val(block("n + 1", Rv::i(4))),
            2 => Child::Val(bracket("if yes { \"y\" } else { \"n\" }", Rv::s("y"))),
            3 => Child::Val(fmt("\"{n}-{}\", 1", "3-1")),
            4 => el(html("br")).c(),
            5 => el(comp("Leaf")).c(),
            6 => Child::Val(block("Some(\"o\")", Rv::s("o"))),
            _ => el(comp("Props")).ats(vec![kv("a", lit("5", Rv::i(5))), kv("the-long-name", block("n", Rv::i(3))), At::Flag("c".into()), kv("b", s("q"))]).c(),
        }
    };
    const LEAVES: usize = 8;
    let inner = |i: usize, j: usize, k: Vec<Child>| -> Child {
        let ea = elem_attrs[j % elem_attrs.len()].clone();
        let ca = comp_attrs[j % comp_attrs.len()].clone();
        let se = sels[(i + j) % sels.len()].clone();
        let mut el_ = |mut e: Elem, a: Vec<At>| {
            // `id` would be there twice
            if a.iter().any(|a| matches!(a, At::Kv(k, _) if k == "id") || matches!(a, At::Dir { key, .. } if key.name() == "id" || key.name() == "class")) {
                e.sels = vec![];
            } else {
                e.sels = se.clone();
            }
            e.ats(a).kids(k.clone())
        };
        match i {
            0 => el_(el(html("div")), ea).c(),
            1 => {
                let mut e = el_(el(html("p")), ea);
                e.kids.as_mut().unwrap().0 = Delim::Paren;
                e.c()
            }
            2 => el_(el(tag(Kind::Web, "x-y")), ea).c(),
            3 => el_(el(comp("Card")), ca).c(),
            4 => el_(el(comp("Twice")), if matches!(j % comp_attrs.len(), 3 | 4) { vec![] } else { ca }).c(),
            5 => el_(el(comp("Each")).args("|i|", &["i"]), ca).c(),
            6 => el(comp("Layout")).ats(ca).kids(vec![el(comp("Head")).at(kv("label", s("l"))).kids(k).slot()]).c(),
            7 => {
                let mut v = vec![el(comp("Item")).at(kv("n", lit("1", Rv::i(1)))).slot()];
                v.extend(k.clone());
                v.push(el(comp("Item")).kids(k).slot());
                el(comp("Layout")).ats(ca).kids(v).c()
            }
            8 => el_(el(comp("Opt")), ca).c(),
            _ => el_(el(tag(Kind::Svg, "g")), vec![]).c(),
        }
    };
    const INNER: usize = 10;
    let mut out = vec![];
    // every inner kind with every attribute list around every pair of leaves
    for i in 0..INNER {
        for j in 0..8 {
            for (q, p) in seqs(LEAVES, 2).into_iter().enumerate() {
                if c.quick() && (q + j) % 8 != i % 8 {
                    continue;
                }
                out.push(doc(pre, vec![inner(i, j, p.iter().map(|&x| leaf(x)).collect())]));
            }
        }
    }
    // inner in inner next to leaves
    for i in 0..INNER {
        for k in 0..INNER {
            for j in 0..8 {
                if c.quick() && (i + k + j) % 4 != 0 {
                    continue;
                }
                for l in 0..LEAVES {
                    if c.quick() && (l + j) % 4 != 0 || (l + i) % 2 != 0 {
                        continue;
                    }
                    let deep = inner(k, j + 3, vec![leaf(l), leaf((l + j) % LEAVES)]);
                    out.push(doc(pre, vec![leaf((l + k) % LEAVES), inner(i, j, vec![deep.clone(), leaf(l)]), leaf(l)]));
                    if !c.quick() {
                        for m in 0..INNER {
                            if (m + l + j) % 5 == 0 {
                                out.push(doc(pre, vec![inner(m, j + 1, vec![inner(i, j, vec![deep.clone()]), leaf(l)])]));
                            }
                        }
                    }
                }
            }
        }
    }
    out
}

pub fn run(c: &mut Ctx) {
    let m = mixtures(c);
    compare(c, "mixtures", "every one of 10 kinds of parent with every list of attributes around every pair of 8 leaves (quick: an eighth); every parent in every other (quick: a sixteenth)", m);
    // what the other checks explore
    let max = c.b(3, 1000);
    type Run = fn(&mut Ctx);
    let all: [(&str, Run); 9] = [("C01", c01::run), ("C02", c02::run), ("C03", c03::run), ("C04", c04::run), ("C05", c05::run), ("C06", c06::run), ("C07", c07::run), ("C08", c08::run), ("C10", c10::run)];
    for (id, f) in all {
        let mut sub = Ctx::new(id, crate::ctx::Tier::Quick);
        sub.collect = Some(vec![]);
        f(&mut sub);
        let docs: Vec<Doc> = sub.collect.take().unwrap().into_iter().filter(|d| ast::size(&d.kids) <= max).collect();
        compare(c, &format!("documents of {id}"), "all documents that its quick check explores (quick: of at most 3 constructs)", docs);
    }
}
use crate::ast;
