//! Errors point at what causes them.
use super::*;
use crate::{ctx::Want, expand, par, real::Prog};

/// An input with the offending tokens marked `«like this»` and, optionally, what
/// may be pointed at as well `⟦around them⟧`.
#[derive(Clone, Debug)]
pub struct Marked {
    pub text: String,
    pub culprit: (usize, usize),
    pub wide: (usize, usize),
}

pub fn unmark(s: &str) -> Marked {
    let (mut text, mut c, mut w) = (String::new(), (usize::MAX, 0), (usize::MAX, 0));
    for ch in s.chars() {
        match ch {
            '«' => c.0 = text.len(),
            '»' => c.1 = text.len(),
            '⟦' => w.0 = text.len(),
            '⟧' => w.1 = text.len(),
            ch => text.push(ch),
        }
    }
    assert!(c.0 != usize::MAX && c.1 >= c.0, "{s}");
    if w.0 == usize::MAX {
        w = c;
    }
    Marked { text, culprit: c, wide: w }
}

/// Mistakes among the attributes of an element, a component, a slot.
/// `E`, `C`, `S`: where it is a mistake.
pub const ATTRS: &[(&str, &str)] = &[
    ("ECS", "«title= $»"),
    ("ECS", "«title=» $"),
    ("EC", "«on:click=» $"),
    ("EC", "«class:a=» $"),
    ("ECS", "title=«g»[1]"),
    ("ECS", "title=«fmt»[\"{}\", 1]"),
    ("EC", "«foo»:a={1}"),
    ("S", "«foo:a={1}»"),
    ("EC", "class:a:«b»={true}"),
    ("EC", "style:a:«b»=\"c\""),
    ("EC", "prop:a:«undelegated»=\"c\""),
    ("EC", "use:d:«b»={1}"),
    ("EC", "on:click:«capture»={h}"),
    ("EC", "on:{click}:«capture»"),
    ("EC", "on:«\"click\"»={h}"),
    ("EC", "use:«\"d\"»={1}"),
    ("C", "clone:«\"x\"»"),
    ("C", "attr:«\"title\"»=\"x\""),
    ("C", "clone:x:«m»"),
    ("C", "clone:x=«{1}»"),
    ("C", "clone:«{x}»"),
    ("S", "clone:x=«{1}»"),
    ("S", "clone:x:«m»"),
    ("E", "«attr:a»=\"x\""),
    ("E", "«clone:x»"),
    ("S", "«class:a={true}»"),
    ("S", "«on:click={h}»"),
    ("S", "«attr:a=\"x\"»"),
    ("S", "«use:d»"),
    ("S", "«{..x}»"),
    ("ECS", "«{..}»"),
    ("ECS", "«_»={1}"),
    ("ECS", "«{_}»"),
    ("ECS", "a-«r#b»=\"x\""),
    ("C", "on:«self»={h}"),
    ("ECS", "«class: $»"),
    ("ECS", "«class:{} $»"),
    ("ECS", "«class:{1} $»"),
    ("ECS", "«class:= $»"),
    ("EC", "«on:click: $»"),
    ("EC", "«on:click:= $»"),
];

/// Tokens that do not belong between attributes.
pub const STRAY: &[&str] = &["1", "1.5", "'c'", "\"s\"", ",", "=", "==", "+", "<", ">", "::", "@", "&", "!", "'l", "[x]", ". .", "#", "..", "-> x", "?"];

/// Mistakes among children. `r`: at the root, `e`: in elements, `c`: in components.
pub const KIDS: &[(&str, &str)] = &[
    ("rec", "«1»"),
    ("rec", "«1.5»"),
    ("rec", "«-1»"),
    ("rec", "«'c'»"),
    ("rec", "«b\"x\"»"),
    ("rec", "«c\"x\"»"),
    ("rec", "«b'x'»"),
    ("rec", "«true»"),
    ("rec", "«false»"),
    ("rec", "«;»"),
    ("rec", "«g»[1]"),
    ("rec", "«div |x|» { }"),
    ("rec", "«div |x|» { \"k\" }"),
    ("rec", "«div |x|» ( \"k\" )"),
    ("rec", "«div |x| ;»"),
    ("rec", "«Card |x| ;»"),
    ("re", "«slot:Head;»"),
    ("re", "«slot:Head» { \"k\" }"),
    ("c", "«slot:head;»"),
    ("c", "«slot:a::Head;»"),
    ("c", "«slot:Head<T>;»"),
    ("c", "«slot:a-b;»"),
    ("c", "slot:Head⟦«.a»;⟧"),
    ("c", "slot:Head⟦ «#a»;⟧"),
    ("rec", "«_»;"),
    ("rec", "«self»;"),
    ("rec", "a-«r#b»;"),
];

/// Mistakes after which nothing of the list of children is understood.
pub const LAST: &[(&str, &str)] = &[
    ("rec", "«, $»"),
    ("rec", "«= $»"),
    ("rec", "«(\"a\") $»"),
    ("rec", "«.a $»"),
    ("rec", "«#a $»"),
    ("rec", "«<div> $»"),
    ("rec", "«& $»"),
    ("rec", "«'l $»"),
    ("rec", "«- x; $»"),
    ("rec", "«div |x $»"),
    ("rec", "«A:: $»"),
    ("rec", "«A<T $»"),
    ("rec", "«A::; $»"),
    ("rec", "«A::1; $»"),
    ("rec", "«::; $»"),
    ("rec", "«:: $»"),
    ("rec", "«::1; $»"),
    ("c", "«slot: $»"),
    ("c", "«slot:; $»"),
    ("c", "«slot:1; $»"),
    ("c", "«slot:\"s\" $»"),
    ("rec", "«div on: $»"),
    ("rec", "«div class:a: $»"),
    ("rec", "«div on:= $»"),
    ("rec", "«div class:{} $»"),
];

/// Mistakes that only the end of the children makes.
pub const ENDS: &[(&str, &str)] = &[
    ("rec", "«div»"),
    ("rec", "«Card»"),
    ("rec", "«A::B»"),
    ("rec", "«my-el»"),
    ("rec", "«div.a»"),
    ("rec", "«div #a»"),
    ("rec", "«div title=\"x\"»"),
    ("rec", "«div title»"),
    ("rec", "«div {x}»"),
    ("rec", "«div {..x}»"),
    ("rec", "«div on:click={h}»"),
    ("rec", "«div title=»"),
    ("rec", "«div on:»"),
    ("rec", "«div on:click=»"),
    ("rec", "«div on:click:»"),
    ("rec", "«div class:{a}:»"),
    ("rec", "«div |x|»"),
    ("rec", "«div |»"),
    ("rec", "«Card |x»"),
    ("rec", "«Card |x|»"),
    ("rec", "«div .»"),
    ("rec", "«div #»"),
    ("rec", "«div -»"),
    ("rec", "«A::»"),
    ("rec", "«A<»"),
    ("rec", "«A<T»"),
    ("rec", "«A<T>»"),
    ("rec", "«::A»"),
    ("rec", "«::»"),
    ("c", "«slot:»"),
    ("c", "«slot:Head»"),
    ("c", "«slot:Head a=»"),
    ("rec", "«div 1»"),
    ("rec", "«div ,»"),
    ("rec", "«div \"s\"»"),
    ("rec", "«,»"),
    ("rec", "«=»"),
    ("rec", "«1»"),
    ("rec", "«;»"),
];

/// Where children can be: (class, text).
pub const WHERE: &[(&str, &str)] = &[
    ("r", "$"),
    ("e", "div { $ }"),
    ("e", "div ( $ )"),
    ("c", "Card { $ }"),
    ("c", "Each |i| { $ }"),
    ("c", "Layout { slot:Head { $ } }"),
    ("e", "g.a x=\"1\" { $ }"),
    ("e", "my-el { br; $ }"),
    ("c", "Layout { slot:Item; $ }"),
];

const BEFORE: &[&str] = &["", "br;", "\"x\"", "Card { \"k\" }", "{v}", "f[\"{}\", v]", "div title={v} ;"];
const AFTER: &[&str] = &["", "br;", "{v}", "\"x\"", "Card { \"k\" }"];

fn class_of(wh: &str) -> &'static str { WHERE.iter().find(|w| w.1 == wh).map(|w| w.0).unwrap_or("r") }

/// A list of children with a mistake somewhere: (where it is one, text).
pub fn mistaken() -> Vec<(&'static str, String)> {
    let mut out = vec![];
    for (who, t) in ATTRS {
        for w in who.chars() {
            let (tags, class): (&[&str], &str) = match w {
                'E' => (&["div", "p.c #i", "circle", "my-el", "mi"], "rec"),
                'C' => (&["Card", "a::B<T>", "Card.c #i"], "rec"),
                _ => (&["slot:Head"], "c"),
            };
            for tag in tags {
                if t.contains("_»") && *tag == "my-el" || t.contains("_»") && *tag == "circle" {
                    continue;
                }
                for b in ["", "a=\"b\"", "{k}", "class:z={v}"] {
                    if *tag == "slot:Head" && b.starts_with("class") {
                        continue;
                    }
                    for (a, e) in [("", ";"), ("", "{ \"k\" }"), ("y", ";"), ("y={1}", "{ br; }"), ("", "( \"k\" )"), ("", "|x| { \"k\" }")] {
                        if e.starts_with('|') && w == 'E' {
                            continue;
                        }
                        let rest = format!("{a} {e}");
                        if t.contains("=»") && !a.is_empty() && e != ";" {
                            continue;
                        }
                        // what follows takes part in the mistake
                        let first = if a.is_empty() { e } else { a };
                        if t.contains('$') {
                            if t.contains("= $") && first.starts_with('{') {
                                continue; // that is a value
                            }
                            if (t.contains(": $") || t.contains("={} $") || t.contains(":= $")) && first.starts_with(['y', '{']) {
                                continue;
                            }
                            let (one, more) = match first.split_once(' ') {
                                Some((x, _)) if a.is_empty() && x == "{" => (first, ""),
                                _ if a.is_empty() => (e, ""),
                                _ => (a, e),
                            };
                            if t.contains("» $") {
                                // the error may be where a value was expected
                                if one.starts_with('{') {
                                    continue;
                                }
                                let t = t.replace("» $", " $»").replace('$', one);
                                out.push((class, format!("⟦{tag} {b} {t} {more}⟧")));
                            } else {
                                out.push((class, format!("⟦{tag} {b} {} {more}⟧", t.replace('$', one))));
                            }
                        } else {
                            out.push((class, format!("⟦{tag} {b} {t} {rest}⟧")));
                        }
                    }
                }
            }
        }
    }
    for s in STRAY {
        for tag in ["div", "div.c", "Card", "a::B", "my-el"] {
            for b in ["", "a=\"b\"", "{k}", "class:z={v}"] {
                for e in [";", "{ \"k\" }", "y=\"1\" ;"] {
                    if *s == "::" && b.is_empty() && !tag.contains('.') || *s == "<" && b.is_empty() && !tag.contains('.') {
                        continue;
                    }
                    if *s == "#" && e.starts_with('y') {
                        continue;
                    }
                    // a prefixed value
                    if *s == "[x]" && b.is_empty() && !tag.contains('.') {
                        continue;
                    }
                    out.push(("rec", format!("⟦{tag} {b} «{s}» {e}⟧")));
                }
            }
        }
    }
    for (class, t) in KIDS {
        out.push((class, if t.contains('⟦') { t.to_string() } else { format!("⟦{t}⟧") }));
    }
    out
}

/// Checks the macro's own errors.
fn judge(text: &str, m: &Marked, found: &mut Vec<par::Found>) -> u64 {
    let e = expand::expand(text);
    // byte offsets of lines
    let starts: Vec<usize> = std::iter::once(0).chain(text.match_indices('\n').map(|x| x.0 + 1)).collect();
    let off = |(l, c): (usize, usize)| starts[l - 1] + c;
    let mut hit = false;
    let mut bad = |what: String| found.push(par::Found { key: text.into(), what, want: format!("errors in {:?}, one of them in {:?}", &text[m.wide.0..m.wide.1], &text[m.culprit.0..m.culprit.1]) });
    if e.diags.is_empty() {
        bad("no error".into());
        return 0;
    }
    for d in &e.diags {
        let Some((a, b)) = d.at else {
            bad(format!("{:?} points at the whole invocation", d.msg));
            continue;
        };
        let (a, b) = (off(a), off(b));
        if a >= m.culprit.0 && b <= m.culprit.1 {
            hit = true;
        } else if a < m.wide.0 || b > m.wide.1 {
            bad(format!("{:?} points at {:?}", d.msg, &text[a..b]));
        }
    }
    if !hit {
        bad(format!("no error points at {:?}, but: {:?}", &text[m.culprit.0..m.culprit.1], e.diags.iter().map(|d| (d.msg.clone(), d.at.map(|(a, b)| &text[off(a)..off(b)]))).collect::<Vec<_>>()));
    }
    par::hash(&e.diags.iter().map(|d| d.msg.clone()).collect::<Vec<_>>())
}

/// Names alone in braces are attributes.
pub fn is_attribute(t: &str) -> bool {
    let m = unmark(t);
    let (a, b) = (&m.text[..m.culprit.0], &m.text[m.culprit.0..]);
    let (Some(a), Some(b)) = (a.rfind(['{', '(', '|']), b.find(['}', ')'])) else { return false };
    let inner = &m.text[a..m.culprit.0 + b];
    inner.starts_with('{') && inner[1..].chars().all(|c| c.is_alphanumeric() || " -_".contains(c))
}

fn inproc(c: &mut Ctx, name: &str, bound: &str, mut texts: Vec<String>) {
    texts.retain(|t| !is_attribute(t));
    let st = par::explore(
        texts.len() as u64,
        |i| texts[i as usize].clone(),
        |i, f| {
            let m = unmark(&texts[i as usize]);
            judge(&m.text, &m, f)
        },
    );
    let s = texts.get(texts.len() * 2 / 3).cloned().unwrap_or_default();
    c.inproc(name, bound, texts.len() as u64, st, &s);
}

pub fn run(c: &mut Ctx) {
    expand::silence_panics();
    if std::env::var_os("MC_REAL").is_some() {
        return real(c);
    }
    // every mistake, between all siblings, in all places
    let all = mistaken();
    let mut v = vec![];
    for (class, t) in &all {
        for (wc, w) in WHERE {
            if !class.contains(wc) {
                continue;
            }
            for b in &BEFORE[..c.b(4, 7)] {
                for a in &AFTER[..c.b(3, 5)] {
                    v.push(w.replace('$', &format!("{b} {t} {a}")));
                }
            }
        }
    }
    inproc(c, "mistakes", "every mistake, on every kind of element, among other attributes, between siblings, in 9 places", v);

    // lines
    let mut v = vec![];
    for (class, t) in &all {
        for (wc, w) in WHERE {
            if class.contains(wc) {
                v.push(w.replace('$', &format!("br; {t} Card;")).replace(' ', "\n"));
            }
        }
    }
    inproc(c, "lines", "the same with a line break after every token", v);

    // mistakes that spoil the rest, and unfinished input
    let mut v = vec![];
    for (wc, w) in WHERE {
        for b in BEFORE {
            for (class, t) in LAST {
                if !class.contains(wc) {
                    continue;
                }
                for a in ["", "br;", "{v}", "\"x\" br;"] {
                    if t.contains(": $") && a == "br;" && !t.contains("slot") {
                        continue; // a name
                    }
                    v.push(w.replace('$', &format!("{b} ⟦{}⟧", t.replace('$', a))));
                }
            }
            for (class, t) in ENDS {
                if class.contains(wc) {
                    v.push(w.replace('$', &format!("{b} ⟦{t}⟧")));
                }
            }
        }
    }
    // the end of what surrounds it is where the rest is missing
    let v = v.into_iter().map(|t| {
        let Some((a, b)) = t.split_once("»⟧") else { return t };
        match b.trim_start().chars().next() {
            Some(e @ ('}' | ')')) => format!("{a} {e}»⟧{}", &b.trim_start()[1..]),
            _ => t,
        }
    });
    let v = v.collect();
    inproc(c, "unfinished", "input that ends too early or cannot be continued, after siblings, in 9 places", v);

    // far into the document
    let mut v = vec![];
    let few: Vec<_> = all.iter().filter(|(_, t)| !t.contains("a=\"b\"") && !t.contains("{k}") && !t.contains("class:z") && !t.contains("y") && !t.contains("|x| {") && !["a::B", "my-el", "p.c", "mi ", "Card.c"].iter().any(|x| t.contains(&format!("⟦{x}")))).collect();
    for (wc, w) in WHERE {
        for (class, t) in &few {
            if !class.contains(wc) {
                continue;
            }
            for (k, n) in c.b(vec![9, 40, 130, 300], vec![5, 9, 17, 26, 33, 65, 100, 129, 257, 300]).into_iter().enumerate() {
                let b = ["br; ", "\"x\" ", "{v}\n", "Card { \"k\" } "][k % 4];
                v.push(w.replace('$', &format!("{}{t}", b.repeat(n))));
                v.push(w.replace('$', &format!("{t} {}", b.repeat(n))));
            }
            // after blank lines, or many columns
            v.push(w.replace('$', &format!("br;{}{t}", "\n".repeat(300))));
            v.push(w.replace('$', &format!("br;{}{t}", " ".repeat(300))));
            // after many attributes
            for n in c.b(vec![8, 30, 70], vec![5, 8, 16, 27, 33, 64, 128]) {
                if let Some((a, b)) = t.split_once("  ") {
                    v.push(w.replace('$', &format!("{a} {}{b}", "a={1} ".repeat(n))));
                }
            }
        }
        // deep inside
        let (a, b) = w.split_once('$').unwrap();
        for (class, t) in &few {
            if !class.contains(wc) || *w == "$" {
                continue;
            }
            for n in c.b(vec![4, 7, 12, 25], vec![4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 32, 40, 60]) {
                v.push(format!("{}{t}{}", a.repeat(n), b.repeat(n)));
            }
        }
    }
    inproc(c, "far", "every mistake after and before up to 300 siblings, lines or attributes, and up to 25 (60) levels deep, in 9 places", v);

    // nested places
    let mut v = vec![];
    let plain: Vec<_> = all.iter().filter(|(_, t)| !t.contains("a=\"b\"") && !t.contains("{k}") && !t.contains("class:z") && !t.contains("y")).collect();
    for (wc1, w1) in WHERE {
        let _ = wc1;
        for (_, w2) in WHERE {
            for (wc, w) in WHERE {
                for (class, t) in &plain {
                    if !class.contains(wc) || *wc == "r" && w1.len() + w2.len() > 2 {
                        continue;
                    }
                    v.push(w1.replace('$', &w2.replace('$', &w.replace('$', t))));
                }
            }
        }
    }
    inproc(c, "nested", "every mistake without neighbours, three levels deep, in 9 places each", v);
    real(c);
}

/// Mistakes that the compiler finds, in an attribute. `E`, `C`, `S` as above.
const TYPED: &[(&str, &str)] = &[
    ("EC", "title={«undefd»}"),
    ("EC", "data-a={«undefd»}"),
    ("EC", "class:a={«undefd»}"),
    ("EC", "style:a={«undefd»}"),
    ("EC", "prop:a={«undefd»}"),
    ("EC", "on:click={«undefd»}"),
    ("EC", "use:d2={«undefd»}"),
    ("EC", "attr:title={«undefd»}"),
    ("EC", "title=[«undefd»]"),
    ("EC", "class:a=[«undefd»]"),
    ("EC", "style:a=[«undefd»]"),
    ("EC", "prop:a=[«undefd»]"),
    ("EC", "title=f[\"{}\", «undefd»]"),
    ("EC", "title=f[\"{«undefd»}\"]"),
    ("EC", "class=f[\"{}\", «undefd»]"),
    ("EC", "style:a=f[\"{}\", «undefd»]"),
    ("EC", "title=«f[\"{}\"]»"),
    ("EC", "title=«f[1]»"),
    ("EC", "title=«f[]»"),
    ("EC", "title=«{1 +}»"),
    ("EC", "title=«[1 +]»"),
    ("EC", "title=«{let}»"),
    ("EC", "title=«{x y}»"),
    ("EC", "on:click=«{1 +}»"),
    ("EC", "class:a=«{1 +}»"),
    ("EC", "{..«undefd»}"),
    ("EC", "{..«1»}"),
    ("EC", "«on:bogus»={|_| ()}"),
    ("EC", "«on:click={1}»"),
    ("EC", "«on:click={|_: i32| ()}»"),
    ("EC", "«on:click={|| ()}»"),
    ("EC", "«on:click»"),
    ("EC", "«class:a={\"no\"}»"),
    ("EC", "«class:a-b={\"no\"}»"),
    ("EC", "«class:a=\"no\"»"),
    ("EC", "«style:a={()}»"),
    ("E", "«class:a»"),
    ("EC", "«style:a»"),
    ("E", "«prop:a»"),
    ("EC", "«prop:a={1..2}»"),
    ("EC", "use:«undefd»"),
    ("EC", "use:«undefd»={1}"),
    ("EC", "«use:d2={\"x\"}»"),
    ("EC", "«use:d2»"),
    ("EC", "«title={1..2}»"),
    ("EC", "«data-x={1..2}»"),
    ("EC", "«title={'a'..'c'}»"),
    ("EC", "«aria-label={1..2}»"),
    ("E", "«bogus=\"x\"»"),
    ("E", "«bogus»"),
    ("E", "{«undefd»}"),
    ("E", "«class={1..2}»"),
    ("E", "«style={1..2}»"),
    ("E", "«ref={1}»"),
    ("E", "ref={«undefd»}"),
    ("E", "«inner_html={1..2}»"),
    ("P", "«bogus=\"x\"»"),
    ("P", "«bogus»"),
    ("P", "«a=\"x\"»"),
    ("P", "«a={\"x\"}»"),
    ("P", "«a={undefd}»"),
    ("P", "a=[«undefd»]"),
    ("P", "a=f[\"{}\", «undefd»]"),
    ("P", "«a»"),
    ("P", "{«undefd»}"),
    ("S", "«bogus={1}»"),
    ("S", "«n=\"x\"»"),
    ("S", "«n={\"x\"}»"),
    ("S", "n={«undefd»}"),
    ("S", "«n»"),
    ("S", "{«undefd»}"),
];

/// Mistakes that the compiler finds, as a child. `r`, `e`, `c` as above.
const TYPED_KIDS: &[(&str, &str)] = &[
    ("rec", "{«undefd»}"),
    ("rec", "[«undefd»]"),
    ("rec", "f[\"{}\", «undefd»]"),
    ("rec", "f[\"{«undefd»}\"]"),
    ("rec", "«{1..2}»"),
    ("rec", "«[1..2]»"),
    ("rec", "«f[\"{}\"]»"),
    ("rec", "«f[1]»"),
    ("rec", "«f[]»"),
    ("rec", "«f[\"{\"]»"),
    ("rec", "«{1 +}»"),
    ("rec", "«[1 +]»"),
    ("rec", "«{x y}»"),
    ("rec", "«bogustag»;"),
    ("rec", "«bogustag» { \"k\" }"),
    ("rec", "«Undefd»;"),
    ("rec", "«Undefd» { \"k\" }"),
    ("rec", "«no::Such»;"),
    ("rec", "«deep::er::No»;"),
    ("rec", "«::no::Such»;"),
    ("rec", "«Gen<Undefd>»;"),
    ("rec", "«Gen<i32, i32>»;"),
    ("rec", "«Leaf<i32>»;"),
    ("rec", "«Gen»;"),
    ("rec", "«Card»;"),
    ("rec", "«Leaf { \"k\" }»"),
    ("rec", "«Each { \"k\" }»"),
    ("rec", "«Each |a, b| { \"k\" }»"),
    ("rec", "«Card |a| { \"k\" }»"),
    ("rec", "«Each |Some(a)| { \"k\" }»"),
    ("rec", "«Each |a: String| { \"k\" }»"),
    ("rec", "Each |a| { {«undefd»} }"),
    ("rec", "«br { \"x\" }»"),
    ("rec", "Card clone:«undefd» { \"k\" }"),
    ("rec", "Layout { slot:Head clone:«undefd» { \"k\" } }"),
    ("rec", "Card { «slot:Head»; }"),
    ("rec", "Card { «slot:Head» { \"k\" } }"),
    ("rec", "Layout { «slot:Nope»; }"),
    ("rec", "Layout { «slot:Nope» { \"k\" } }"),
    ("rec", "Layout { «slot:Head; slot:Head;» }"),
    ("rec", "Layout { «slot:TwoWords»; }"),
    ("rec", "Layout { slot:Head { «slot:Item»; } }"),
    ("rec", "Layout { «slot:Row |a, b| { \"k\" }» }"),
    ("rec", "Layout { «slot:Head |x| { \"k\" }» }"),
];

/// The same mistakes with everything around them, for the compiler to find.
fn typed(thorough: bool) -> Vec<String> {
    let mut atoms: Vec<(&str, String)> = vec![];
    for (who, t) in TYPED {
        for w in who.chars() {
            let hosts: &[(&str, &str)] = match w {
                'E' => &[("rec", "div $ ;"), ("rec", "p.c $ { \"k\" }"), ("rec", "circle $ ;"), ("rec", "my-el $ ;")],
                'C' => &[("rec", "Leaf $ ;"), ("rec", "Card $ { \"k\" }"), ("rec", "deep::er::Card $ { \"k\" }")],
                'P' => &[("rec", "Props $ ;")],
                _ => &[("rec", "Layout { slot:Item $ ; }")],
            };
            for (class, h) in hosts {
                // elements that are not HTML take any attribute
                if (h.starts_with("circle") || h.starts_with("my-el")) && ["bogus", "undefd»}"].iter().any(|b| t.trim_start_matches(['«', '{']).starts_with(b)) {
                    continue;
                }
                if w == 'C' && !t.contains(':') && !t.starts_with("{..") {
                    continue;
                }
                if w == 'E' && t.starts_with("attr:") {
                    continue;
                }
                for (b, a) in [("", ""), ("class:q={true}", "on:input={|_| ()}"), (".k", "style:z=\"1\"")] {
                    if w == 'S' && !b.is_empty() {
                        continue;
                    }
                    // shorthands belong to the tag
                    if b == ".k" && h.starts_with("deep") {
                        continue;
                    }
                    let (b, t) = (b, t);
                    atoms.push((class, h.replace('$', &format!("{b} {t} {a}"))));
                }
            }
        }
    }
    for (class, t) in TYPED_KIDS {
        atoms.push((class, t.to_string()));
    }
    let mut out = vec![];
    for (wc, w) in REAL_WHERE {
        for (b, a) in REAL_SIBS {
            for (class, t) in &atoms {
                let plain = *w == "$" || !t.contains("q={true}") && !t.contains(".k ");
                if class.contains(wc) && (thorough || plain && (*w == "$" || (b.is_empty() && a.is_empty()))) {
                    out.push(w.replace('$', &format!("{b} {t} {a}")));
                }
            }
        }
    }
    out
}

const REAL_WHERE: &[(&str, &str)] = &[
    ("r", "$"),
    ("e", "div { $ }"),
    ("e", "p title=\"x\" ( $ )"),
    ("c", "Card { $ }"),
    ("c", "Bare { $ }"),
    ("c", "Twice { $ }"),
    ("c", "Each |i| { $ }"),
    ("c", "Layout { slot:Head { $ } }"),
];

const REAL_SIBS: &[(&str, &str)] = &[("", ""), ("br;", "\"x\""), ("\"x\" Leaf;", ""), ("", "Card { \"k\" } {1}")];

pub fn real(c: &mut Ctx) {
    let pre = "let h = |_: leptos::ev::MouseEvent| (); let _ = &h; ";
    let mut progs = vec![];
    for t in typed(!c.quick()) {
        let m = unmark(&t);
        let code = format!("{pre}html(mview! {{ {} }})", m.text);
        let off = pre.len() + "html(mview! { ".len();
        let at = (m.culprit.0 + off, m.culprit.1 + off);
        progs.push((Prog { items: String::new(), code }, Want::Error(Some(at))));
    }
    // an error at the whole invocation, see known-findings.txt
    let code = "html(mview! { Layout { slot:Row { \"k\" } } })";
    let a = code.find("slot").unwrap();
    progs.push((Prog { items: String::new(), code: code.into() }, Want::Error(Some((a, a + 16)))));
    c.progs("compiler", "every mistake only the compiler finds, on every kind of element, among other attributes, between siblings, in 8 places", progs);
}
