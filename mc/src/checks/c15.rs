//! A mistake hides neither other mistakes nor the rest.
use super::{c14::{ATTRS, ENDS, KIDS, LAST, STRAY, WHERE}, *};
use crate::{
    ctx::Want,
    expand, par,
    real::Prog,
};
use proc_macro2::{TokenStream, TokenTree};

/// Several mistakes: the culprits, what they may be reported at, and the text.
pub struct Marked {
    pub text: String,
    pub culprits: Vec<(usize, usize)>,
    pub wides: Vec<(usize, usize)>,
}

pub fn unmark(s: &str) -> Marked {
    let mut m = Marked { text: String::new(), culprits: vec![], wides: vec![] };
    let (mut c, mut w) = (vec![], vec![]);
    for ch in s.chars() {
        match ch {
            '«' => c.push(m.text.len()),
            '»' => m.culprits.push((c.pop().unwrap(), m.text.len())),
            '⟦' => w.push(m.text.len()),
            '⟧' => m.wides.push((w.pop().unwrap(), m.text.len())),
            ch => m.text.push(ch),
        }
    }
    m
}

/// Constructs with one mistake that does not keep the rest from being understood,
/// and where they can be (`r`: root, `e`: in elements, `c`: in components).
/// `%` is a hole for children.
fn units() -> Vec<(&'static str, String)> {
    let mut out: Vec<(&'static str, String)> = vec![];
    for (who, t) in ATTRS {
        // the parser cannot go on after these
        if t.contains("class: $") || t.contains("class:{") || t.contains("class:= $") || t.contains("click: $") || t.contains("click:= $") {
            continue;
        }
        let t = t.replace("» $", "»").replace(" $»", "»");
        for w in who.chars() {
            let (class, tags): (_, &[&str]) = match w {
                'E' => ("rec", &["div", "circle"]),
                'C' => ("rec", &["Card"]),
                _ => ("s", &["slot:Head"]),
            };
            for tag in tags {
                if *tag == "circle" && t.contains("_»") {
                    continue;
                }
                // what follows `=` is a value, if it looks like one
                if t.ends_with("=»") {
                    let t = t.replace('»', " ;»");
                    out.push((class, format!("⟦{tag} id={{m0}} {t}⟧")));
                } else {
                    out.push((class, format!("⟦{tag} id={{m0}} {t} lang={{m1}} {{ [m2] % }}⟧")));
                    out.push((class, format!("⟦{tag} {t} ;⟧")));
                }
            }
        }
    }
    for s in STRAY {
        for tag in ["div.c", "Card.c"] {
            let t = format!("⟦{tag} id={{m0}} «{s}» ;⟧");
            out.push(("rec", if s.starts_with(['1', '\'', '"']) && *s != "'l" { t } else { format!("p {{ [a] {t} }}") }));
        }
    }
    // nothing can be made of the rest of these lists
    for (class, t) in LAST {
        // except directives without a name, which end it all
        if t.contains("div on:") || t.contains("div class:") {
            continue;
        }
        let t = t.trim_matches(['«', '»']).replace(" $", "");
        for (k, p) in [('e', "p ⟦«{ [a] $ }»⟧"), ('c', "Card ⟦«( [a] $ )»⟧")] {
            if class.contains(k) {
                out.push(("rec", p.replace('$', &t)));
            }
        }
    }
    for (class, t) in KIDS {
        // the compiler has nothing to go on with
        let class: &'static str = if t.contains("slot:Head;") && *class == "re" || t.contains("slot:Head»") { "e" } else { class };
        // followed by brackets, that is a value
        if *t == "«true»" || *t == "«false»" {
            continue;
        }
        // a name alone in braces would be an attribute
        let b = if *t == "«-1»" { "br; " } else { "" };
        out.push((class, if t.contains('⟦') { t.to_string() } else { format!("{b}⟦{t}⟧") }));
    }
    for (class, t) in ENDS {
        // nothing of these lists is understood
        if ["«div |x»", "«Card |x»", "«div |»", "«A::»", "«A<»", "«A<T»", "«::»", "«slot:»", "«,»", "«=»", "«div -»", "«div on:»", "«div on:click:»", "«div class:{a}:»"].contains(t) {
            continue;
        }
        if class.contains('e') {
            out.push(("rec", format!("⟦p «{{ br; {} }}»⟧", t.trim_matches(['«', '»']))));
        }
        if class.contains('c') {
            out.push(("rec", format!("⟦Card «{{ br; {} }}»⟧", t.trim_matches(['«', '»']))));
        }
    }
    out
}

/// Where two constructs can be: siblings, neighbours, parent and child.
/// `A`, `B` are the places, `C` and `D` their classes.
const PAIRS: &[(&str, &str, &str)] = &[
    ("r", "r", "A B"),
    ("r", "r", "[a] A [b] B [c]"),
    ("e", "e", "div { A [a] B }"),
    ("c", "c", "Card { A [a] B }"),
    ("c", "c", "Each |i| ( A [a] B [c] )"),
    ("e", "c", "div { A } [a] Card { B } [b]"),
    ("c", "e", "Card { A [a] } br; p title={t} { B } [b]"),
    ("r", "e", "A [a] div { \"x\" p { [b] B } }"),
    ("c", "c", "Layout { slot:Head { A [a] } B [b] }"),
    ("c", "c", "Layout { slot:Head { A } [a] slot:Item n={t} { B } [b] }"),
    ("s", "s", "Layout { A [a] B [b] }"),
    ("s", "c", "Layout { A [a] B }"),
    ("c", "s", "Layout { B } [a] Layout { A }"),
];

/// Expansion must go on and report everything.
fn judge(text: &str, found: &mut Vec<par::Found>) -> u64 {
    let m = unmark(text);
    let ts: TokenStream = m.text.parse().unwrap();
    let o = expand::expand_ts(ts);
    let e = expand::plain(&o);
    let starts: Vec<usize> = std::iter::once(0).chain(m.text.match_indices('\n').map(|x| x.0 + 1)).collect();
    let off = |(l, c): (usize, usize)| starts[l - 1] + c;
    let mut bad = |what: String| found.push(par::Found { key: m.text.clone(), what, want: format!("errors at {:?}", m.culprits.iter().map(|c| &m.text[c.0..c.1]).collect::<Vec<_>>()) });
    if let Some(p) = &e.panicked {
        bad(format!("the macro panics: {p}"));
        return 0;
    }
    let at: Vec<(usize, usize)> = e.diags.iter().filter_map(|d| d.at.map(|(a, b)| (off(a), off(b)))).collect();
    let all = || format!("{:?}", e.diags.iter().map(|d| (d.msg.clone(), d.at.map(|(a, b)| &m.text[off(a)..off(b)]))).collect::<Vec<_>>());
    for c in &m.culprits {
        if !at.iter().any(|a| a.0 >= c.0 && a.1 <= c.1) {
            bad(format!("no error at {:?} ({}..{}), but {}", &m.text[c.0..c.1], c.0, c.1, all()));
        }
    }
    for a in &at {
        if !m.wides.iter().any(|w| a.0 >= w.0 && a.1 <= w.1) {
            bad(format!("an error at {:?}, where there is no mistake: {}", &m.text[a.0..a.1], all()));
        }
    }
    match &o.tokens {
        Some(out) if !e.aborted && !e.compile_error => {
            if !expand::is_expr(out.clone()) {
                bad(format!("not an expression: {}", expand::render(out)));
            }
            let have = idents(out);
            for want in idents(&m.text.parse().unwrap()) {
                if is_marker(&want) && !have.contains(&want) {
                    bad(format!("{want} is not in the expansion: {}", expand::render(out)));
                }
            }
        }
        _ => bad(format!("the rest is not expanded: {}", all())),
    }
    drop(o);
    expand::tick();
    par::hash(&e.diags.iter().map(|d| d.msg.clone()).collect::<Vec<_>>())
}

/// `a`, `b`, `c`, `t` and `m0`, ...: identifiers that are in constructs without
/// mistakes, or beside the mistake.
fn is_marker(s: &str) -> bool { s.starts_with("mk") }

fn idents(ts: &TokenStream) -> std::collections::HashSet<String> {
    let mut out = std::collections::HashSet::new();
    fn go(ts: TokenStream, out: &mut std::collections::HashSet<String>) {
        for t in ts {
            match t {
                TokenTree::Ident(i) => {
                    out.insert(i.to_string());
                }
                TokenTree::Group(g) => go(g.stream(), out),
                _ => {}
            }
        }
    }
    go(ts.clone(), &mut out);
    out
}

/// Gives every marker of a text its own name.
fn name_markers(s: &str) -> String {
    let mut n = 0;
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find(['[', '{']) {
        out.push_str(&rest[..=i]);
        let close = if rest.as_bytes()[i] == b'[' { ']' } else { '}' };
        rest = &rest[i + 1..];
        if let Some(j) = rest.find(close) {
            if ["a", "b", "c", "t", "m0", "m1", "m2"].contains(&&rest[..j]) {
                out.push_str(&format!("mk{n}"));
                n += 1;
                rest = &rest[j..];
            }
        }
    }
    out + rest
}

fn inproc(c: &mut Ctx, name: &str, bound: &str, n: u64, text: impl Fn(u64) -> String + Sync) {
    let st = par::explore(n, |i| unmark(&text(i)).text, |i, f| judge(&text(i), f));
    let s = text(n * 2 / 3);
    c.inproc(name, bound, n, st, &s);
}

pub fn run(c: &mut Ctx) {
    expand::silence_panics();
    if std::env::var_os("MC_REAL").is_some() {
        return real(c);
    }
    let units = units();

    // alone, everywhere
    let mut v = vec![];
    for (class, u) in &units {
        let places: Vec<String> = if *class == "s" { ["Layout { $ }", "Layout { [a] $ [b] }", "div { Layout { $ } }", "Card { Layout { $ [a] } [b] }"].map(String::from).to_vec() } else { WHERE.iter().filter(|w| class.contains(w.0)).flat_map(|w| [w.1.to_string(), w.1.replace('$', "[a] $"), w.1.replace('$', "br; $ [b]")]).collect() };
        for w in places {
            v.push(name_markers(&w.replace('$', &u.replace('%', ""))));
        }
    }
    inproc(c, "alone", "every mistake in 9 places", v.len() as u64, |i| v[i as usize].clone());

    // two
    let mut v = vec![];
    for (x, y, w) in PAIRS.iter().step_by(c.b(2, 1)) {
        let xs: Vec<usize> = (0..units.len()).filter(|&i| units[i].0.contains(x)).collect();
        let ys: Vec<usize> = (0..units.len()).filter(|&i| units[i].0.contains(y)).collect();
        for &i in &xs {
            for &j in &ys {
                v.push((i, j, *w));
            }
        }
    }
    inproc(c, "pairs", "all ordered pairs of mistakes in 7 (13) arrangements", v.len() as u64, |i| {
        let (i, j, w) = v[i as usize];
        let b = w.rfind('B').unwrap();
        let _ = b;
        name_markers(&put(w, &units[i].1.replace('%', ""), &units[j].1.replace('%', "")))
    });

    // one inside of the other
    let hosts: Vec<usize> = (0..units.len()).filter(|&i| units[i].1.contains('%')).collect();
    let mut v = vec![];
    for &h in &hosts {
        let class = if units[h].1.contains("⟦div") || units[h].1.contains("⟦circle") { "e" } else { "c" };
        for (j, u) in units.iter().enumerate() {
            if u.0.contains(class) {
                v.push((h, j));
            }
        }
    }
    let tops: Vec<usize> = (0..units.len()).filter(|&i| units[i].0 == "rec" && units[i].1.contains("%")).collect();
    inproc(c, "nested", "every mistake inside of an element, component or slot with a mistake", v.len() as u64, |i| {
        let (h, j) = v[i as usize];
        let t = units[h].1.replace('%', &units[j].1.replace('%', ""));
        let t = if units[h].0 == "s" { format!("Layout {{ {t} }}") } else { t };
        name_markers(&format!("[a] {t} [b]"))
    });

    // two at the same element
    let mut v = vec![];
    for (w, host) in [('E', "⟦div id={m0} $ lang={m1} { [m2] }⟧"), ('C', "⟦Card id={m0} $ lang={m1} { [m2] }⟧"), ('S', "Layout { ⟦slot:Head id={m0} $ lang={m1} { [m2] }⟧ }"), ('E', "⟦div $ ;⟧"), ('C', "⟦Card $ ;⟧")] {
        let ok: Vec<&str> = ATTRS.iter().filter(|a| a.0.contains(w) && !a.1.contains('$')).map(|a| a.1).collect();
        for a in &ok {
            for b in &ok {
                if a == b {
                    continue;
                }
                v.push(name_markers(&format!("[a] {} [b]", host.replace('$', &format!("{a} {b}")))));
                v.push(name_markers(&format!("[a] {} [b]", host.replace('$', &format!("{a} title={{t}} {b}")))));
                if !c.quick() {
                    for d in &ok {
                        if a != d && b != d {
                            v.push(name_markers(&format!("[a] {} [b]", host.replace('$', &format!("{a} {b} {d}")))));
                        }
                    }
                }
            }
        }
    }
    inproc(c, "same element", "all ordered pairs (triples) of mistakes in one element, component or slot", v.len() as u64, |i| v[i as usize].clone());

    // many
    let mut v = vec![];
    for (class, u) in &units {
        let u = u.replace('%', "");
        let places: &[&str] = match *class {
            "s" => &["Layout { [a] $ [b] }", "Card { Layout { $ } [b] }"],
            _ => &["[a] $ [b]", "div { $ } [b]", "Card |i| { $ } [b]", "Layout { slot:Head { $ } [b] }"],
        };
        for (k, w) in places.iter().enumerate() {
            if !(*class == "s" || class.contains(["r", "e", "c", "c"][k])) {
                continue;
            }
            for n in (2..=c.b(12, 40)).chain(c.b(vec![20, 40, 70], vec![50, 64, 100, 128, 200])) {
                if c.quick() && n % 2 == k % 2 && n != 2 && n < 20 {
                    continue;
                }
                v.push((*w, vec![&*u; n].join(" ")));
                v.push((*w, vec![&*u; n].join(" [t] ")));
            }
        }
    }
    inproc(c, "many alike", "every mistake 2..=12 (40) and up to 70 (200) times in 4 places", v.len() as u64, |i| name_markers(&v[i as usize].0.replace('$', &v[i as usize].1)));
    let mut v = vec![];
    for (x, ws) in [("r", &["[a] $ [b]"][..]), ("e", &["div { $ } [b]", "p { [a] my-el ( $ ) }"]), ("c", &["Card { $ } [b]", "Layout { slot:Head { $ } [a] }"]), ("s", &["Layout { $ } [b]"])] {
        let these: Vec<String> = units.iter().filter(|u| u.0.contains(x)).map(|u| u.1.replace('%', "")).collect();
        for w in ws {
            for r in (0..these.len()).step_by(c.b(5, 1)) {
                let mut t = these.clone();
                t.rotate_left(r);
                // all in a row, and apart
                for n in [5, 10, 11, 12, 20, 30, 50, these.len()] {
                    let t = &t[..n.min(t.len())];
                    v.push((*w, t.join(" ")));
                    v.push((*w, t.join(" [t] ")));
                    if n < 31 {
                        v.push((*w, t.iter().map(|u| if x == "s" { u.clone() } else { format!("br; {u} \"s\"") }).rev().collect::<Vec<_>>().join(" ")));
                    }
                }
            }
        }
    }
    inproc(c, "many", "5 to all of the mistakes in one place, from every fifth (every) one on, in both orders", v.len() as u64, |i| name_markers(&v[i as usize].0.replace('$', &v[i as usize].1)));
    let mut v = vec![];
    for (w, host) in [('E', "⟦div id={m0} $ lang={m1} { [m2] }⟧"), ('C', "⟦Card id={m0} $ lang={m1} { [m2] }⟧"), ('S', "Layout { ⟦slot:Head id={m0} $ lang={m1} { [m2] }⟧ }"), ('E', "⟦div $ ;⟧"), ('C', "⟦Card $ ;⟧")] {
        let ok: Vec<&str> = ATTRS.iter().filter(|a| a.0.contains(w) && !a.1.contains('$')).map(|a| a.1).collect();
        for a in &ok {
            for n in (1..=c.b(20, 60)).chain([64, 100]) {
                v.push(name_markers(&format!("[a] {} [b]", host.replace('$', &vec![*a; n].join(" ")))));
                v.push(name_markers(&format!("[a] {} [b]", host.replace('$', &vec![*a; n].join(" title={t} ")))));
            }
        }
        for r in 0..ok.len() {
            let mut t = ok.clone();
            t.rotate_left(r);
            for n in 4..=t.len() {
                v.push(name_markers(&format!("[a] {} [b]", host.replace('$', &t[..n].join(" ")))));
                v.push(name_markers(&format!("[a] {} [b]", host.replace('$', &t[..n].join(" title={t} ")))));
            }
        }
    }
    inproc(c, "many in one element", "every mistake 1..=20 (60) and up to 100 times, and 4 to all of them, in one element, component or slot", v.len() as u64, |i| v[i as usize].clone());

    // three
    let mut kinds = std::collections::HashSet::new();
    let few: Vec<usize> = (0..units.len())
        .filter(|&i| units[i].0 == "rec" && (!c.quick() || kinds.insert(unmark(&units[i].1).culprits.iter().map(|c| unmark(&units[i].1).text[c.0..c.1].replace("Card", "div")).collect::<String>())))
        .filter(|&i| !units[i].1.contains("circle"))
        .collect();
    // of the mistakes with alike recovery, some are enough
    let few: Vec<usize> = few.into_iter().enumerate().filter(|(k, _)| k % c.b(2, 1) == 0).map(|x| x.1).take(c.b(56, 120)).collect();
    let n = few.len() as u64;
    let three = ["A [a] div { B } Card { C [b] }", "div { A Card { B [a] } } [b] C", "Layout { slot:Head { A } B slot:Item n={t} { C } } [a]"];
    let k = c.b(1, 3);
    inproc(c, "triples", "all triples of up to 56 (120) mistakes in 1 (3) arrangements", n * n * n * k, |i| {
        let (w, i) = (three[(i % k) as usize], i / k);
        let [x, y, z] = [i % n, i / n % n, i / n / n].map(|i| units[few[i as usize]].1.replace('%', ""));
        let w: String = w.split(' ').map(|w| if w == "C" { "¤ ".to_string() } else { format!("{w} ") }).collect();
        name_markers(&put(w.trim(), &x, &y).replace('¤', &z))
    });
    let _ = tops;

    real(c);
}

/// Puts two texts at the places `A` and `B`.
fn put(w: &str, a: &str, b: &str) -> String {
    let mut out = String::new();
    let words: Vec<&str> = w.split(' ').collect();
    for (i, x) in words.iter().enumerate() {
        if i > 0 {
            out.push(' ');
        }
        out.push_str(match *x {
            "A" => a,
            "B" => b,
            x => x,
        });
    }
    out
}

/// The compiler shows all errors of the macro, and its own about the rest.
fn real(c: &mut Ctx) {
    let mut progs = vec![];
    let units: Vec<_> = units().into_iter().filter(|u| u.0 == "rec" && !u.1.contains('%') && !u.1.contains("circle")).collect();
    let rest = ["{«undefd»}", "div title={«undefd»} ;", "p { {«undefd»} }", "Card { {«undefd»} }", "div class:a=[«undefd»] ;", "«Undefd»;", "[«undefd»]", "f[\"{}\", «undefd»]", "div on:«bogus»={|_| ()};", "Layout { slot:Head { {«undefd»} } }"];
    for (_, u) in &units {
        for r in rest {
            for (k, w) in ["A B", "B A", "div { A } B", "Card { B A }"].iter().enumerate() {
                if c.quick() && k > 0 && r != rest[0] && r != rest[1] {
                    continue;
                }
                progs.push(put(w, &u.replace("id={m0}", ""), r));
            }
        }
    }
    for (_, u) in &units {
        for (_, x) in &units {
            if !c.quick() {
                progs.push(put("A div { B }", &u.replace("id={m0}", ""), &x.replace("id={m0}", "")));
            }
        }
    }
    let progs = progs
        .into_iter()
        .map(|t| {
            let m = unmark(&t);
            let off = "html(mview! { ".len();
            let code = format!("html(mview! {{ {} }})", m.text);
            let shown = m.text.clone();
            let want = Want::Errors(
                format!("errors at {:?}", m.culprits),
                std::rc::Rc::new(move |ds| {
                    for c in &m.culprits {
                        if !ds.iter().any(|d| d.primary.iter().flatten().any(|p| p.0 >= c.0 + off && p.1 <= c.1 + off)) {
                            return Some(format!("no error at {:?}, but {}", &shown[c.0..c.1], ds.iter().map(|d| format!("{:?} at {:?}", d.msg, d.primary)).collect::<Vec<_>>().join(", ")));
                        }
                    }
                    None
                }),
            );
            (Prog { items: String::new(), code }, want)
        })
        .collect();
    c.progs("compiler", "every mistake together with 10 mistakes that only the compiler finds (and with every other one), in 4 arrangements", progs);
}
