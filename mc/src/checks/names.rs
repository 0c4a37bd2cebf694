//! Names, systematically: every shape of identifier that the grammar of
//! kebab-case names has, in packs of names that are easily confused.
use std::collections::{BTreeMap, BTreeSet};

use super::*;

/// What a name can begin with.
const FIRST: &[&str] = &[
    "a", "b_c", "B", "aB", "type", "r#fn", "_", "_x", "x_", "__y", "aria", "ariax", "data", "class", "style", "id", "ref", "on", "é", "É", "a1",
];
/// What can follow a dash.
const LATER: &[&str] = &[
    "a", "B", "b_c", "type", "_x", "x_", "class", "aria", "1", "0", "05", "2x", "1_0", "0x1f", "0b1", "99999999999999999999", "1u8", "é", "a1",
];

/// The name without what is easily overlooked.
fn fold(m: &str) -> String {
    m.split(['-', '_']).map(|s| s.trim_start_matches('0')).collect::<String>().to_lowercase()
}

/// Names of up to `max` segments as they are written, the confusable ones next
/// to each other.
pub fn names(max: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let first: Vec<&str> = FIRST.to_vec();
    for f in &first {
        for (pre, post) in [("", ""), ("-", ""), ("--", ""), ("", "-"), ("", "--")] {
            v.push(format!("{pre}{f}{post}"));
        }
    }
    for l in LATER {
        for pre in ["-", "--", "---"] {
            v.push(format!("{pre}{l}"));
        }
    }
    if max >= 2 {
        for f in &first {
            for l in LATER {
                for (pre, j, post) in [("", "-", ""), ("", "--", ""), ("", "-", "-"), ("-", "-", ""), ("--", "-", "")] {
                    v.push(format!("{pre}{f}{j}{l}{post}"));
                }
            }
        }
    }
    if max >= 3 {
        for f in &first {
            for l in LATER {
                for m in LATER {
                    v.push(format!("{f}-{l}-{m}"));
                }
            }
        }
    }
    // a raw identifier can only come first
    v.retain(|n| !n.contains("-r#"));
    let mut seen = BTreeSet::new();
    v.retain(|n| seen.insert(super::c02::meant(n)));
    v.sort_by_key(|n| {
        let m = super::c02::meant(n);
        (fold(&m), m)
    });
    v
}

/// Whether there can be a variable of this name.
pub fn is_var(s: &str) -> bool {
    !s.is_empty() && s != "_" && !s.starts_with(|c: char| c.is_ascii_digit()) && !matches!(s, "self" | "Self" | "super" | "crate")
}

/// The variables that shorthands of these names take, each with a number, and
/// variables of similar names.
pub fn vars(names: &[String]) -> (BTreeMap<String, i64>, Vec<String>) {
    let mut m = BTreeMap::new();
    for n in names {
        let s = snake(&super::c02::meant(n));
        if is_var(&s) {
            let k = m.len() as i64 + 1;
            m.entry(s).or_insert(k);
        }
    }
    let mut decoys = BTreeSet::new();
    for s in m.keys() {
        for d in [
            s.trim_start_matches('_').to_string(),
            s.trim_end_matches('_').to_string(),
            s.trim_matches('_').to_string(),
            s.replace("__", "_"),
            s.replace('_', ""),
            s.to_lowercase(),
            format!("_{s}"),
            format!("{s}_"),
            s.split('_').map(|x| if x.len() > 1 { x.trim_start_matches('0') } else { x }).collect::<Vec<_>>().join("_"),
        ] {
            if is_var(&d) && !m.contains_key(&d) {
                decoys.insert(d);
            }
        }
    }
    (m, decoys.into_iter().collect())
}

/// `let` statements for them.
pub fn lets(names: &[String], show: impl Fn(i64) -> String) -> String {
    let (m, d) = vars(names);
    let mut s = String::new();
    for (i, x) in d.iter().enumerate() {
        s.push_str(&format!("let r#{x} = {}; ", show(-1 - i as i64)));
    }
    for (x, k) in &m {
        s.push_str(&format!("let r#{x} = {}; ", show(*k)));
    }
    s
}

/// The number of the variable that a shorthand of this name takes.
pub fn num(all: &[String], n: &str) -> Option<i64> { vars(all).0.get(&snake(&super::c02::meant(n))).copied() }

/// Whether an attribute of this name needs no method.
pub fn custom(n: &str) -> bool {
    let m = super::c02::meant(n);
    m.contains('-') && !m.starts_with("aria-")
}

/// Whether the name stands for something special on every element.
pub fn special(n: &str) -> bool { matches!(super::c02::meant(n).as_str(), "class" | "style" | "ref" | "node_ref") }

/// Documents with packs of attributes named like this, as `name=v`, `name` and
/// `{name}` in turn, the turn depending on `rot`. A flag stands between the
/// other two, because a dash at its end would go on with the next name.
pub fn attr_docs(t: &Tag, ns: &[String], rot: usize) -> Option<Doc> {
    let mut kv = vec![];
    let mut flag = vec![];
    let mut short = vec![];
    for (i, n) in ns.iter().enumerate() {
        match (i + rot) % 3 {
            0 => kv.push(At::Kv(n.clone(), lit(&(100 + i).to_string(), Rv::i(100 + i as i64)))),
            1 => flag.push(At::Flag(n.clone())),
            _ => match num(ns, n) {
                Some(k) => short.push(At::Short(n.clone(), Rv::i(k))),
                None => kv.push(At::Kv(n.clone(), str_lit("no variable"))),
            },
        }
    }
    let mut ats = vec![At::Kv("data-zz".into(), lit("0", Rv::i(0)))];
    let (mut k, mut f, mut s) = (kv.into_iter(), flag.into_iter(), short.into_iter());
    loop {
        let n = ats.len();
        ats.extend(k.next());
        let sh = s.next();
        if let Some(x) = f.next() {
            ats.push(x);
            // always something after a flag
            ats.push(sh.unwrap_or_else(|| At::Spread("()".into(), vec![])));
        } else {
            ats.extend(sh);
        }
        if ats.len() == n {
            break;
        }
    }
    Some(doc(&lets(ns, |k| k.to_string()), vec![el(t.clone()).ats(ats).c()]))
}
use crate::ctx::Doc;

/// Packs of names: neighbours, so that confusable names meet.
pub fn packs(ns: Vec<String>, k: usize) -> Vec<Vec<String>> { ns.chunks(k).map(|c| c.to_vec()).collect() }

pub const WHAT: &str = "21 first and 19 later segments, 2 joints, leading and trailing dashes";

/// One element per way to give it classes, styles and ids of these names.
pub fn style_docs(t: &Tag, ns: &[String], comp: bool) -> Doc {
    use super::c04::dir;
    let e = || el(t.clone());
    let yes = || Some(lit("true", Rv::Bool(true)));
    let mut kids = vec![];
    let mut a = e();
    let mut b = e();
    let mut m = e();
    for n in ns {
        a = a.sel(Sel::Class(n.clone()));
        b = b.sel(Sel::Id(n.clone()));
    }
    for (i, n) in ns.iter().enumerate() {
        match i % 4 {
            0 => m = m.sel(Sel::Class(n.clone())),
            1 => m = m.sel(Sel::Id(n.clone())),
            _ => {}
        }
    }
    // a dash at the end of the last selector would go on with the next name
    m = m.at(At::Spread("()".into(), vec![]));
    for (i, n) in ns.iter().enumerate() {
        match i % 4 {
            2 => m = m.at(dir("class", n, yes())),
            3 => m = m.at(dir("style", n, Some(str_lit(&format!("m{i}"))))),
            _ => {}
        }
    }
    kids.push(a.c());
    kids.push(b.c());
    kids.push(m.c());
    kids.push(e().ats(ns.iter().enumerate().map(|(i, n)| dir("class", n, Some(lit(if i % 3 == 2 { "false" } else { "true" }, Rv::Bool(i % 3 != 2))))).collect()).c());
    kids.push(e().ats(ns.iter().enumerate().map(|(i, n)| dir("style", n, Some(str_lit(&format!("s{i}"))))).collect()).c());
    if comp {
        let mut v: Vec<At> = ns.iter().map(|n| dir("class", n, None)).collect();
        if v.len() > 1 {
            // something after a flag
            v = v.into_iter().flat_map(|a| [a, At::Spread("()".into(), vec![])]).collect();
        }
        kids.push(e().ats(v).c());
    }
    doc("", kids)
}

/// A class for every variable, which is on or off.
pub fn class_short_doc(t: &Tag, ns: &[String], turn: i64) -> Doc {
    // the variable of a name is on if its number is; those of similar names are not as it is
    let on = |k: i64| (k + turn) % 2 == 0;
    let ats = ns
        .iter()
        .filter_map(|n| num(ns, n).map(|k| At::DirShort { dir: "class".into(), key: n.clone(), modi: None, rv: Rv::Bool(on(k)), lazy: false }))
        .collect();
    let pre = lets(ns, |k| if k < 0 { "\"decoy\"".into() } else { on(k).to_string() });
    doc(&pre, vec![el(t.clone()).ats(ats).c()])
}

/// `dir:{name}` for every name, with a number.
pub fn short_doc(t: &Tag, d: &str, ns: &[String]) -> Doc {
    let show = |k: i64| if d == "style" { format!("\"v{k}\"") } else { k.to_string() };
    let ats = ns
        .iter()
        .filter_map(|n| {
            num(ns, n).map(|k| At::DirShort { dir: d.into(), key: n.clone(), modi: None, rv: if d == "style" { Rv::s(&format!("v{k}")) } else { Rv::i(k) }, lazy: false })
        })
        .collect();
    doc(&lets(ns, show), vec![el(t.clone()).ats(ats).c()])
}

/// A component with props of these names and similar ones, called with
/// `name=value`, `name` and `{name}` in turn.
pub fn prop_prog(ns: &[String], rot: usize) -> Option<(crate::real::Prog, crate::ctx::Want)> {
    let (vars, decoys) = vars(ns);
    if vars.is_empty() {
        return None;
    }
    let methods: Vec<String> = vars.keys().chain(&decoys).filter(|m| !matches!(m.as_str(), "build" | "children")).map(|m| format!("r#{m}")).collect();
    let mut want = String::new();
    let mut src = String::from("Named");
    for (i, n) in ns.iter().enumerate() {
        let s = snake(&super::c02::meant(n));
        let Some(k) = vars.get(&s) else { continue };
        // nothing before the first goes on with a leading dash
        src.push_str(if i == 0 || (i + rot) % 3 == 2 { " {..()}" } else { "" });
        match (i + rot) % 3 {
            0 => {
                src.push_str(&format!(" {n}={}", 100 + i));
                want.push_str(&format!("{s}={},", 100 + i));
            }
            1 => {
                src.push_str(&format!(" {n} {{..()}}"));
                want.push_str(&format!("{s}=true,"));
            }
            _ => {
                src.push_str(&format!(" {{{n}}}"));
                want.push_str(&format!("{s}={k},"));
            }
        }
    }
    let items = format!("named_props! {{ Named; {}; }}", methods.join(" "));
    Some((
        crate::real::Prog { items, code: format!("{} html(mview! {{ {src}; }})", lets(ns, |k| k.to_string())) },
        crate::ctx::Want::Text(want),
    ))
}
