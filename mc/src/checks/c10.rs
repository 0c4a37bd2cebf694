//! Tag names.
use super::{c04::dir, *};
use crate::{ctx::Doc, tables};

const SHARED: &[&str] = &["a", "script", "style", "title"];

/// Every tag that leptos knows: tag, has children, some checked attribute.
pub fn tags() -> Vec<(Tag, bool)> {
    let mut v: Vec<(Tag, bool)> = tables::HTML.iter().map(|t| (html(t.0), !t.1)).collect();
    v.extend(tables::SVG.iter().filter(|t| !SHARED.contains(t)).map(|t| (tag(Kind::Svg, t), true)));
    v.extend(tables::MATH.iter().map(|t| (tag(Kind::Math, t.0), true)));
    v
}

const FORMS: usize = 14;

fn form(t: &Tag, kids: bool, k: usize) -> Option<Child> {
    let e = el(t.clone());
    let a = || At::Kv("data-x".into(), str_lit("v"));
    let cls = |s: &str| Sel::Class(s.into());
    Some(match k {
        0 => e.c(),
        1 => e.sel(cls("c-d")).c(),
        2 => e.sel(Sel::Id("i-j".into())).c(),
        3 => e.at(a()).c(),
        4 => e.at(dir("class", "k", Some(lit("true", Rv::Bool(true))))).c(),
        5 => e.sel(cls("c")).at(At::Kv("class".into(), str_lit("d"))).at(dir("style", "top", Some(str_lit("1px")))).c(),
        6 => e.at(dir("prop", "p", Some(lit("1", Rv::i(1))))).c(),
        // a raw identifier is the same name
        7 => {
            let mut e = e;
            e.tag.src = format!("r#{}", e.tag.src);
            e.at(a()).c()
        }
        _ if !kids => return None,
        8 => e.kids(vec![]).c(),
        9 => e.pkids(vec![]).c(),
        10 => e.kids(vec![txt("t")]).c(),
        11 => e.at(a()).pkids(vec![Child::Val(block("1", Rv::i(1))), txt("t")]).c(),
        12 => e.sel(cls("c")).sel(Sel::Id("i".into())).kids(vec![el(html("b")).c(), el(tag(Kind::Svg, "g")).c(), el(tag(Kind::Math, "mi")).c()]).c(),
        _ => {
            let mut e = e;
            e.tag.src = format!("r#{}", e.tag.src);
            e.kids(vec![Child::Val(bracket("2", Rv::i(2)))]).c()
        }
    })
}

fn put(ctx: &str, k: Vec<Child>) -> Vec<Child> {
    match ctx {
        "math" => vec![el(tag(Kind::Math, "math")).kids(k).c()],
        "web" => vec![el(tag(Kind::Web, "x-y")).kids(k).c()],
        "foreign" => vec![el(tag(Kind::Svg, "svg")).kids(vec![el(tag(Kind::Svg, "foreignObject")).kids(k).c()]).c()],
        c => place(c, k),
    }
}

pub fn run(c: &mut Ctx) {
    let tags = tags();
    let mut docs: Vec<Doc> = vec![];
    for (t, kids) in &tags {
        // the text of these is not escaped or parsed as usual
        let raw = matches!(&*t.src, "script" | "style" | "textarea" | "noscript" | "template" | "title");
        for f in 0..FORMS {
            if raw && f == 12 {
                continue;
            }
            if let Some(x) = form(t, *kids, f) {
                docs.push(doc("", vec![x.clone()]));
                if f % 4 == 0 || !c.quick() {
                    docs.push(doc("", vec![txt("a"), x, txt("b")]));
                }
            }
        }
    }
    c.docs("forms", "every HTML, SVG and MathML tag in 14 forms", docs);

    let ctxs: Vec<&str> = CONTEXTS.iter().copied().chain(["math", "web", "foreign"]).collect();
    let mut docs = vec![];
    for (i, (t, kids)) in tags.iter().enumerate() {
        let raw = matches!(&*t.src, "script" | "style" | "textarea" | "noscript" | "template" | "title");
        for (j, ctx) in ctxs.iter().enumerate() {
            for f in c.b(vec![(i + j) % FORMS], (0..FORMS).collect()) {
                let f = if raw && f == 12 { 10 } else { f };
                let x = form(t, *kids, f).or_else(|| form(t, *kids, f % 8)).unwrap();
                let y = form(&tags[(i + 71) % tags.len()].0, false, 0).unwrap();
                docs.push(doc("", put(ctx, vec![x, y])));
            }
        }
    }
    c.docs("places", "every tag in each of 13 kinds of parent (quick: in one form each)", docs);

    // custom elements
    let mut docs = vec![];
    for (i, name) in super::c02::lexicon(c.b(2, 3)).iter().enumerate() {
        let m = super::c02::meant(name);
        if !m.contains('-') || m.starts_with(|c: char| c.is_ascii_uppercase()) {
            continue;
        }
        // no element name starts with a hyphen
        if name.starts_with('-') {
            continue;
        }
        let t = Tag { kind: Kind::Web, src: name.clone(), name: m };
        let f = i % FORMS;
        let f = if f == 7 || f == 13 { f - 1 } else { f };
        // spaces do not end a name that ends with a hyphen
        let open = name.ends_with('-');
        let f = if open { [0, 2, 8, 9, 10][i % 5] } else { f };
        // a number directly before a selector belongs to it
        if name.ends_with(|c: char| c.is_ascii_digit() || c == 'x') || name.ends_with('-') {
            docs.push(doc("", vec![form(&t, true, if matches!(f, 1 | 5 | 12) { 10 } else { f }).unwrap()]));
        } else {
            docs.push(doc("", vec![form(&t, true, f).unwrap()]));
        }
        if i % 3 == 0 {
            let f = [0, if open { 9 } else { 3 }, 8, 10][i / 3 % 4];
            docs.push(doc("", put(ctxs[i / 3 % ctxs.len()], vec![form(&t, true, f).unwrap(), el(html("br")).c()])));
        }
    }
    let all: Vec<String> = names::names(c.b(2, 3)).into_iter().filter(|n| n.contains('-') && !n.starts_with('-') && !n.starts_with(|c: char| c.is_ascii_uppercase())).collect();
    for (i, p) in names::packs(all, 8).iter().enumerate() {
        let k: Vec<Child> = p
            .iter()
            .enumerate()
            .map(|(j, n)| {
                let t = Tag { kind: Kind::Web, src: n.clone(), name: super::c02::meant(n) };
                let e = el(t);
                match (i + j) % 4 {
                    0 => e.c(),
                    1 => e.kids(vec![txt("k")]).c(),
                    2 => e.pkids(vec![el(html("br")).c()]).c(),
                    _ => e.at(At::Spread("()".into(), vec![])).kids(vec![]).c(),
                }
            })
            .collect();
        docs.push(doc("", if i % 3 == 0 { k } else { put(ctxs[i % ctxs.len()], k) }));
    }
    // names that look like those of other elements, or are special elsewhere
    let mut special: Vec<String> = ["font-face", "annotation-xml", "missing-glyph", "color-profile", "font-face-src", "font-face-uri", "font-face-format", "font-face-name", "glyph-ref", "alt-glyph"].map(String::from).to_vec();
    for (t, _) in &tags {
        special.push(format!("{}-x", t.src));
        special.push(format!("x-{}", t.src));
        special.push(format!("{}-{}", t.src, t.src));
        // as they would be in Rust or HTML
        let split: String = t.src.chars().enumerate().map(|(i, c)| if c.is_ascii_uppercase() && i > 0 { format!("-{}", c.to_ascii_lowercase()) } else { c.to_string() }).collect();
        special.push(split);
        for k in 1..t.src.len() {
            special.push(format!("{}-{}", &t.src[..k], &t.src[k..]));
        }
    }
    let keep = |n: &String| {
        let mut segs = n.split('-');
        let first = segs.next().unwrap();
        n.contains('-') && !first.starts_with(|c: char| c.is_ascii_digit() || c.is_ascii_uppercase()) && segs.all(|s| !s.starts_with(|c: char| c.is_ascii_digit()) || s.chars().all(|c| c.is_ascii_digit()))
    };
    special.retain(keep);
    special.sort();
    special.dedup();
    for (i, p) in names::packs(special, 6).iter().enumerate() {
        let k: Vec<Child> = p
            .iter()
            .enumerate()
            .map(|(j, n)| form(&Tag { kind: Kind::Web, src: n.clone(), name: n.clone() }, true, [0, 10, 3, 9, 2, 4][(i + j) % 6]).unwrap())
            .collect();
        docs.push(doc("", if i % 3 == 0 { k } else { put(ctxs[i % ctxs.len()], k) }));
    }
    c.docs("custom", &format!("kebab-case names of up to 2 (3) of 7 segments; all names of up to 2 (3) of {}, 8 next to each other", names::WHAT), docs);

    // components with all kinds of names
    let mut docs = vec![];
    let names = ["A", "B2", "Div", "Svg", "Math", "Use", "Path", "Snake_case", "X_", "ALLCAPS", "Title", "Style", "Html", "P", "Mi", "Abc1d", "HTMLDivElement", "Switch", "SomeÜ"];
    for (i, n) in names.iter().enumerate() {
        let items = format!("#[component] fn {n}(#[prop(optional)] children: Option<Children>) -> impl IntoView {{ leptos::html::section().child(children.map(|c| c())) }}");
        for f in 0..FORMS {
            if f == 7 || f == 8 || f == 9 || f == 3 || f == 11 || f == 5 {
                continue;
            }
            for (j, ctx) in ctxs.iter().enumerate() {
                if (i + j + f) % 4 != 0 && c.quick() {
                    continue;
                }
                // the model of `Card` is the same
                let t = Tag { kind: Kind::Comp, src: n.to_string(), name: "Card".into() };
                let mut d = doc("", put(ctx, vec![form(&t, true, f).unwrap(), txt("a")]));
                d.items = items.clone();
                docs.push(d);
            }
        }
    }
    c.docs("components", "19 names of components in 8 forms in each of 13 kinds of parent (quick: one in four)", docs);
}
