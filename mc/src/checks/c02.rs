//! Attributes of elements.
use super::*;
use crate::tables;

/// Values of every form, with what an attribute shows.
pub fn values() -> Vec<Val> {
    vec![
        str_lit("s v"),
        str_lit("<&\\\"'>").fix("<&\"'>"),
        lit("3", Rv::i(3)),
        lit("-1", Rv::i(-1)).only_block(),
        lit("1.5", Rv::Num("1.5".into(), "1.5:f64".into())),
        lit("'c'", Rv::s("c")),
        lit("true", Rv::Bool(true)),
        lit("false", Rv::Bool(false)),
        block("\"b\"", Rv::s("b")),
        block("String::from(\"o\")", Rv::Owned("o".into())),
        block("Some(\"y\")", Rv::s("y")),
        block("None::<&str>", Rv::Nothing),
        block("let q = 4; q + 1", Rv::i(5)),
        block("if true { 7 } else { 8 }", Rv::i(7)),
        block("match 1 { 1 => \"m\", _ => \"n\" }", Rv::s("m")),
        blockfn("|| \"cl\"", Rv::s("cl")),
        blockfn("move || 6", Rv::i(6)),
        bracket("\"k\"", Rv::s("k")),
        bracket("1 + 1", Rv::i(2)),
        bracket("let q = 2; q * 4", Rv::i(8)),
        bracket("true", Rv::Bool(true)),
        bracket("false", Rv::Bool(false)),
        fmt("\"n{}\", 3", "n3"),
        fmt("\"p{:>3}{x}\", 1, x = 2", "p  12"),
        lit("\"a\\u{e9}\\n\"", Rv::s("a\u{e9}\n")),
        lit("r#\"r\"#", Rv::s("r")),
        lit("1u8", Rv::Num("1".into(), "1:u8".into())),
        lit("0xFF", Rv::i(255)),
        lit("1_000", Rv::i(1000)),
        lit("0b11i64", Rv::Num("3".into(), "3:i64".into())),
        lit("1.0", Rv::Num("1".into(), "1.0:f64".into())),
        lit("2f32", Rv::Num("2".into(), "2.0:f32".into())),
        lit("1e3", Rv::Num("1000".into(), "1000.0:f64".into())),
        lit("2.50", Rv::Num("2.5".into(), "2.5:f64".into())),
        lit("b'a'", Rv::Num("97".into(), "97:u8".into())),
        lit("'\\u{e9}'", Rv::s("\u{e9}")),
        lit("\"\"", Rv::s("")),
        lit("\"a\\\"b\"", Rv::s("a\"b")),
    ]
}

impl Val {
    fn fix(mut self, s: &str) -> Self {
        self.src = format!("{s:?}");
        self.rv = Rv::s(s);
        self
    }
    fn only_block(mut self) -> Self {
        self.src = format!("{{{}}}", self.src);
        self
    }
}

/// Kebab-case names, as written and as meant.
pub fn lexicon(max: usize) -> Vec<String> {
    let segs = ["a", "b_c", "type", "B", "1", "2x", "r#fn"];
    let mut out = vec![];
    for n in 1..=max {
        for s in seqs(segs.len(), n) {
            // raw identifiers may only come first, numbers not
            if s[0] == 4 || s[0] == 5 || s[1..].contains(&6) {
                continue;
            }
            for joint in ["-", "--", " - "] {
                if n == 1 && joint != "-" {
                    continue;
                }
                let base = s.iter().map(|&i| segs[i]).collect::<Vec<_>>().join(joint);
                for (pre, post) in [("", ""), ("-", ""), ("--", ""), ("", "-")] {
                    if s[0] == 6 && !pre.is_empty() {
                        continue;
                    }
                    if joint != "-" && (pre, post) != ("", "") {
                        continue;
                    }
                    out.push(format!("{pre}{base}{post}"));
                }
            }
        }
    }
    out.sort();
    out.dedup();
    out
}

pub fn meant(name: &str) -> String { name.replace(' ', "").replace("r#", "") }

pub fn kinds() -> Vec<Tag> { vec![html("div"), tag(Kind::Svg, "rect"), tag(Kind::Math, "mi"), tag(Kind::Web, "x-el")] }

fn end(e: Elem, how: usize) -> Child {
    match how % 3 {
        0 => e.c(),
        1 => e.kids(vec![txt("k")]).c(),
        _ => e.pkids(vec![txt("k")]).c(),
    }
}

pub fn run(c: &mut Ctx) {
    // every attribute that leptos knows, on every element that has it
    let mut docs = vec![];
    for (t, void, attrs) in tables::HTML {
        for rev in [false, true] {
            let mut ats: Vec<At> = attrs.iter().filter(|a| **a != "style").map(|a| At::Kv(a.to_string(), str_lit(&format!("v-{a}")))).collect();
            if rev {
                ats.reverse();
            }
            for ch in ats.chunks(24) {
                let mut e = el(html(t)).ats(ch.to_vec());
                if !void {
                    e = e.kids(vec![]);
                }
                docs.push(doc("", vec![e.c()]));
            }
        }
    }
    let globals: Vec<String> = tables::GLOBAL
        .iter()
        .map(|s| s.to_string())
        .chain(tables::ARIA.iter().map(|s| s.to_string()))
        .chain(tables::ARIA.iter().map(|s| s.replacen("aria_", "aria-", 1)))
        .chain(tables::ONATTRS.iter().map(|s| s.to_string()))
        .collect();
    for t in ["div", "input", "option"] {
        for ch in globals.chunks(20) {
            let e = el(html(t)).ats(ch.iter().map(|a| At::Kv(a.clone(), str_lit(&format!("v-{a}")))).collect());
            docs.push(doc("", vec![e.c()]));
        }
    }
    for (t, attrs) in tables::MATH {
        for ch in attrs.chunks(24).filter(|c| !c.is_empty()) {
            docs.push(doc("", vec![el(tag(Kind::Math, t)).ats(ch.iter().map(|a| At::Kv(a.to_string(), str_lit("v"))).collect()).c()]));
        }
    }
    // other kinds take any name
    let any: Vec<String> = tables::ATTRS.iter().filter(|a| !matches!(a.0, "style" | "class")).map(|a| a.0.to_string()).collect();
    for t in [tag(Kind::Svg, "path"), tag(Kind::Svg, "svg"), tag(Kind::Web, "my-el")] {
        for ch in any.chunks(24) {
            docs.push(doc("", vec![el(t.clone()).ats(ch.iter().map(|a| At::Kv(a.clone(), str_lit(&format!("v-{a}")))).collect()).c()]));
        }
    }
    c.docs("names", "every attribute leptos knows on every element that has it, also reversed", docs);

    // kebab-case names
    let mut docs = vec![];
    for (i, name) in lexicon(c.b(2, 3)).iter().enumerate() {
        for (j, t) in kinds().into_iter().enumerate() {
            let el = |t: Tag| {
                // a leading dash would continue the name of the tag
                let e = el(t);
                if name.starts_with('-') { e.at(At::Kv("data-z".into(), str_lit("0"))) } else { e }
            };
            let m = meant(name);
            if matches!(t.kind, Kind::Html | Kind::Math) && !m.contains('-') {
                continue;
            }
            let v = [str_lit("v"), lit("1", Rv::i(1)), block("true", Rv::Bool(true)), bracket("\"w\"", Rv::s("w"))][(i + j) % 4].clone();
            let at = At::Kv(name.clone(), v);
            docs.push(doc("", vec![end(el(t.clone()).at(at), i)]));
            if j % 2 == i % 2 {
                docs.push(doc("", vec![end(el(t.clone()).at(At::Flag(name.clone())), i)]));
                let s = snake(&m);
                if s != "_" && !s.chars().all(|c| c == '_') {
                    docs.push(doc(&format!("let r#{s} = \"sh\";"), vec![end(el(t).at(At::Short(name.clone(), Rv::s("sh"))), i)]));
                }
            }
        }
    }
    c.docs("kebab", "all kebab-case names of up to 2 (3) segments over 7 segments, 3 joints, leading and trailing dashes; with a value, as a flag, as a shorthand", docs);

    let mut docs = vec![];
    let all = names::names(c.b(2, 3));
    let n = all.len();
    let (cust, plain): (Vec<_>, Vec<_>) = all.into_iter().filter(|n| !names::special(n)).partition(|n| names::custom(n));
    for (i, p) in names::packs(cust, 9).iter().enumerate() {
        for rot in 0..3 {
            docs.extend(names::attr_docs(&html("div"), p, rot));
            docs.extend(names::attr_docs(&kinds()[1 + (i + rot) % 3], p, rot));
        }
    }
    for (i, p) in names::packs(plain, 9).iter().enumerate() {
        for rot in 0..3 {
            docs.extend(names::attr_docs(&kinds()[1 + (i + rot) % 2 * 2], p, rot));
        }
    }
    c.docs("all names", &format!("{n} names: {}; in packs of 9 alike names, each as an attribute with a value, as a flag and as a shorthand", names::WHAT), docs);

    // forms of values, on checked and unchecked attributes
    let mut docs = vec![];
    for (i, v) in values().into_iter().enumerate() {
        for t in kinds() {
            for key in ["title", "data-x", "aria-label", "hidden", "r#id"] {
                if t.kind == Kind::Math && matches!(key, "r#id") {
                    // all the same
                }
                docs.push(doc("", vec![end(el(t.clone()).at(At::Kv(key.into(), v.clone())), i)]));
            }
        }
    }
    c.docs("values", "38 values of every form on 5 keys of 4 kinds of element", docs);

    // sequences
    let atoms: Vec<(At, &str)> = vec![
        (At::Kv("title".into(), str_lit("1")), "title"),
        (At::Kv("data-a".into(), lit("2", Rv::i(2))), "data-a"),
        (At::Kv("id".into(), block("\"3\"", Rv::s("3"))), "id"),
        (At::Kv("data-b-c".into(), bracket("\"4\"", Rv::s("4"))), "data-b-c"),
        (At::Flag("hidden".into()), "hidden"),
        (At::Short("lang".into(), Rv::s("sh")), "lang"),
        (At::Short("data-sh".into(), Rv::s("sk")), "data-sh"),
        (At::Kv("aria-label".into(), fmt("\"{}\", 5", "5")), "aria-label"),
        (At::Flag("data-flag".into()), "data-flag"),
        (At::Spread("spr".into(), vec![Eff::Attr("data-sp".into(), Rv::s("6"))]), "data-sp"),
        (At::Kv("tabindex".into(), lit("false", Rv::Bool(false))), "tabindex"),
    ];
    let pre = "let lang = \"sh\"; let data_sh = \"sk\"; let spr = leptos::tachys::html::attribute::custom::custom_attribute(\"data-sp\", \"6\");";
    let mut docs = vec![];
    for n in 1..=c.b(2, 3) {
        for s in seqs(atoms.len(), n) {
            let mut names: Vec<&str> = s.iter().map(|&i| atoms[i].1).collect();
            names.sort();
            names.dedup();
            if names.len() < n {
                continue;
            }
            for (j, t) in kinds().into_iter().enumerate() {
                if n == 3 && j != s[0] % 4 {
                    continue;
                }
                for how in 0..3 {
                    if how == (s[0] + j) % 3 || n == 1 {
                        docs.push(doc(pre, vec![end(el(t.clone()).ats(s.iter().map(|&i| atoms[i].0.clone()).collect()), how)]));
                    }
                }
            }
        }
    }
    for n in 1..=26 {
        for (j, t) in kinds().into_iter().enumerate() {
            let ats = (0..n).map(|i| if (i + j) % 3 == 0 { At::Flag(format!("data-f{i}")) } else { At::Kv(format!("data-n{i}"), lit(&i.to_string(), Rv::i(i as i64))) }).collect();
            docs.push(doc("", vec![end(el(t).ats(ats), n)]));
        }
    }
    c.docs("sequences", "all ordered choices of up to 2 (3) of 11 attributes on 4 kinds of element; 1..=26 attributes", docs);

    // the same again
    let mut docs = vec![];
    let same = |k: &str, short: bool| {
        let mut v = vec![At::Kv(k.into(), str_lit("1")), At::Kv(k.into(), block("\"2\"", Rv::s("2"))), At::Kv(k.into(), bracket("\"3\"", Rv::s("3"))), At::Flag(k.into()), At::Kv(k.into(), lit("false", Rv::Bool(false)))];
        if short {
            v.push(At::Short(k.into(), Rv::s(if k == "lang" { "sh" } else { "sk" })));
        }
        v
    };
    for t in kinds() {
        let lists = [same("title", false), same("data-sh", true), same("lang", true), same("aria-label", false)];
        docs.extend(repeats(pre, &t, &lists, if t.kind == Kind::Html { c.b(3, 4) } else { c.b(2, 3) }));
    }
    c.docs("repeated", "all sequences of up to 3 (4) spellings of the same attribute (2 (3) on SVG, MathML and custom elements), next to each other and apart", docs);

    // in every place
    let mut docs = vec![];
    for ctx in CONTEXTS {
        for t in kinds() {
            for (i, (a, _)) in atoms.iter().enumerate() {
                if *ctx == "fn" || *ctx == "slot" || *ctx == "args" {
                    if matches!(a, At::Spread(..)) {
                        continue;
                    }
                }
                docs.push(doc(pre, place(ctx, vec![end(el(t.clone()).at(a.clone()), i), el(html("br")).at(atoms[(i + 4) % 9].0.clone()).c()])));
            }
        }
    }
    c.docs("places", "11 attributes on 4 kinds of element in each of 10 kinds of parent, next to another element with attributes", docs);
}
