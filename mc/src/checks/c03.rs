//! Classes, styles and ids from every source add up.
use super::*;

pub fn sels() -> Vec<Sel> {
    vec![
        Sel::Class("a".into()),
        Sel::Id("i".into()),
        Sel::Class("b-c".into()),
        Sel::Id("j-k2".into()),
        Sel::Class("r#type".into()),
        Sel::Class("--x-2y".into()),
    ]
}

pub const PRE: &str = "let class = \"kc\"; let yes = true; let two_w = true; let color = \"blue\"; let __v = \"7\";";

pub fn atoms() -> Vec<At> {
    let d = |dir: &str, key: Key, val: Val| At::Dir { dir: dir.into(), key, modi: None, val: Some(val) };
    let id = |s: &str| Key::Id(s.into());
    let st = |s: &str| Key::Str(s.into());
    vec![
        At::Kv("class".into(), str_lit("x y")),
        d("class", id("on"), block("true", Rv::Bool(true))),
        At::Kv("style".into(), str_lit("margin:1px")),
        d("style", id("top"), str_lit("2px")),
        At::Kv("class".into(), bracket("\"z\"", Rv::s("z"))),
        d("class", id("off-1"), block("false", Rv::Bool(false))),
        d("class", st("p[q]:r"), bracket("true", Rv::Bool(true))),
        At::Short("class".into(), Rv::s("kc")),
        At::DirShort { dir: "class".into(), key: "two-w".into(), modi: None, rv: Rv::Bool(true), lazy: false },
        d("style", id("--v-1"), block("\"3\"", Rv::s("3"))),
        d("style", st("left"), bracket("\"4px\"", Rv::s("4px"))),
        At::DirShort { dir: "style".into(), key: "color".into(), modi: None, rv: Rv::s("blue"), lazy: false },
        d("class", id("r#for"), lit("true", Rv::Bool(true))),
        d("style", id("right"), fmt("\"{}px\", 6", "6px")),
        At::Kv("class".into(), fmt("\"f{}\", 1", "f1")),
        d("class", id("-n"), lit("false", Rv::Bool(false))),
        d("style", id("width"), block("String::from(\"8px\")", Rv::Owned("8px".into()))),
        At::DirShort { dir: "style".into(), key: "--v".into(), modi: None, rv: Rv::s("7"), lazy: false },
    ]
}

/// Classes and styles of the same name.
pub fn same_names(component: bool) -> Vec<Vec<At>> {
    let d = |dir: &str, key: Key, val: Val| At::Dir { dir: dir.into(), key, modi: None, val: Some(val) };
    let id = |s: &str| Key::Id(s.into());
    let st = |s: &str| Key::Str(s.into());
    let whole = |k: &str, v: Val| if component { d("attr", id(k), v) } else { At::Kv(k.into(), v) };
    vec![
        vec![
            d("style", id("color"), str_lit("s1")),
            d("style", id("color"), bracket("\"s2\"", Rv::s("s2"))),
            d("style", st("color"), block("\"s3\"", Rv::s("s3"))),
            At::DirShort { dir: "style".into(), key: "color".into(), modi: None, rv: Rv::s("blue"), lazy: false },
        ],
        vec![
            d("class", id("yes"), lit("true", Rv::Bool(true))),
            d("class", id("yes"), lit("false", Rv::Bool(false))),
            d("class", st("yes"), bracket("true", Rv::Bool(true))),
            At::DirShort { dir: "class".into(), key: "yes".into(), modi: None, rv: Rv::Bool(true), lazy: false },
        ],
        vec![whole("class", str_lit("x y")), whole("class", str_lit("y z")), whole("class", bracket("\"z\"", Rv::s("z")))],
        vec![whole("style", str_lit("top:1px")), whole("style", str_lit("top:2px;left:1px")), whole("style", bracket("\"top:3px\"", Rv::s("top:3px")))],
    ]
}

pub fn run(c: &mut Ctx) {
    let (sels, atoms) = (sels(), atoms());
    let kinds = super::c02::kinds();
    let mut docs = vec![];
    let mk = |s: &[usize], a: &[usize], t: &Tag, how: usize| {
        let mut e = el(t.clone());
        for &i in s {
            e = e.sel(sels[i].clone());
        }
        e = e.ats(a.iter().map(|&i| atoms[i].clone()).collect());
        doc(PRE, vec![match how % 3 {
            0 => e.c(),
            1 => e.kids(vec![txt("k")]).c(),
            _ => e.pkids(vec![el(html("br")).sel(sels[0].clone()).c()]).c(),
        }])
    };
    // selectors in any order
    for n in 0..=c.b(3, 4) {
        for s in seqs(sels.len(), n) {
            let j = s.iter().sum::<usize>();
            docs.push(mk(&s, &[], &kinds[j % 4], j));
        }
    }
    c.docs("selectors", "all sequences of up to 3 (4) of 6 selectors", std::mem::take(&mut docs));
    // attributes in any order, with and without selectors
    for n in 0..=c.b(2, 3) {
        for a in seqs(atoms.len(), n) {
            for (k, s) in [&[][..], &[0], &[1], &[2, 1, 0]].iter().enumerate() {
                let j = a.iter().sum::<usize>() + k;
                if n == 3 && k != j % 4 {
                    continue;
                }
                docs.push(mk(s, &a, &kinds[j % 4], j));
            }
        }
    }
    c.docs("mixed", "all sequences of up to 2 (3) of 18 class and style attributes, each with 4 selector lists", std::mem::take(&mut docs));
    for ctx in CONTEXTS {
        for (i, a) in atoms.iter().enumerate() {
            for t in &kinds {
                let e = el(t.clone()).sel(sels[i % 6].clone()).sel(sels[(i + 1) % 6].clone()).at(a.clone());
                docs.push(doc(PRE, place(ctx, vec![e.kids(vec![el(html("br")).at(atoms[(i + 1) % 18].clone()).c()]).c(), el(html("hr")).c()])));
            }
        }
    }
    c.docs("places", "18 class and style attributes with selectors on 4 kinds of element in each of 10 kinds of parent", std::mem::take(&mut docs));
    for n in 1..=24 {
        for (j, t) in kinds.iter().enumerate() {
            let mut e = el(t.clone());
            for i in 0..n {
                match (i + j) % 4 {
                    0 => e = e.sel(Sel::Class(format!("s{i}"))),
                    1 => e = e.sel(Sel::Id(format!("i{i}"))),
                    2 => e = e.at(At::Dir { dir: "class".into(), key: Key::Id(format!("c{i}")), modi: None, val: Some(lit("true", Rv::Bool(true))) }),
                    _ => e = e.at(At::Dir { dir: "style".into(), key: Key::Id(format!("p{i}")), modi: None, val: Some(str_lit("1")) }),
                }
            }
            docs.push(doc("", vec![e.c()]));
        }
    }
    c.docs("length", "1..=24 selectors and directives", docs);

    let mut docs = vec![];
    for t in &kinds {
        docs.extend(repeats(PRE, t, &same_names(false), c.b(3, 4)));
    }
    c.docs("repeated", "all sequences of up to 3 (4) class or style attributes of the same name, next to each other and apart", docs);

    let mut docs = vec![];
    let all = names::names(c.b(2, 3));
    let n = all.len();
    for (i, p) in names::packs(all, 8).iter().enumerate() {
        docs.push(names::style_docs(&kinds[i % 4], p, false));
        for turn in 0..2 {
            docs.push(names::class_short_doc(&kinds[(i + 1) % 4], p, turn));
        }
        docs.push(names::short_doc(&kinds[(i + 2) % 4], "style", p));
    }
    c.docs("all names", &format!("{n} names: {}; in packs of 8 alike names, as classes, ids, class and style directives and shorthands", names::WHAT), docs);
}
