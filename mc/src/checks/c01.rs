//! Structure: every child appears once, in order, in its parent.
use super::*;

const LEAVES: usize = 6;
const INNER: usize = 4;

fn leaf(k: usize, n: usize) -> Child {
    match k {
        0 => txt(&format!("t{n}")),
        1 => Child::Val(block(&format!("{n}"), Rv::i(n as i64))),
        2 => Child::Val(bracket(&format!("{n}u8"), Rv::i(n as i64))),
        3 => Child::Val(fmt(&format!("\"v{{}}\", {n}"), &format!("v{n}"))),
        4 => el(html("br")).c(),
        _ => el(comp("Leaf")).c(),
    }
}

fn inner(k: usize, kids: Vec<Child>) -> Child {
    match k {
        0 => el(html("p")).kids(kids).c(),
        1 => el(html("em")).pkids(kids).c(),
        2 => el(comp("Opt")).kids(kids).c(),
        _ => el(tag(Kind::Web, "x-y")).kids(kids).c(),
    }
}

/// A labelled tree: leaf, or inner node with children.
#[derive(Clone)]
enum T {
    L(usize),
    I(usize, Vec<T>),
}

fn forests(n: usize) -> Vec<Vec<T>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for k in 1..=n {
        let firsts = trees(k);
        let rest = forests(n - k);
        for f in &firsts {
            for r in &rest {
                let mut v = vec![f.clone()];
                v.extend(r.iter().cloned());
                out.push(v);
            }
        }
    }
    out
}

fn trees(n: usize) -> Vec<T> {
    let mut out = vec![];
    if n == 1 {
        out.extend((0..LEAVES).map(T::L));
    }
    for f in forests(n - 1) {
        for i in 0..INNER {
            out.push(T::I(i, f.clone()));
        }
    }
    out
}

fn build(f: &[T], n: &mut usize) -> Vec<Child> {
    f.iter()
        .map(|t| {
            *n += 1;
            let id = *n;
            match t {
                T::L(k) => leaf(*k, id),
                T::I(k, kids) => inner(*k, build(kids, n)),
            }
        })
        .collect()
}

pub fn run(c: &mut Ctx) {
    let max = c.b(3, 4);
    let mut docs = vec![];
    for n in 0..=max {
        for f in forests(n) {
            docs.push(doc("", build(&f, &mut 0)));
        }
    }
    c.docs("trees", &format!("all forests of up to {max} nodes over {LEAVES} leaf and {INNER} inner kinds"), docs);

    // every pair of neighbours in every place
    let mut docs = vec![];
    for ctx in CONTEXTS {
        for s in seqs(LEAVES + INNER, 2) {
            let k: Vec<Child> = s
                .iter()
                .enumerate()
                .map(|(i, &k)| if k < LEAVES { leaf(k, i + 1) } else { inner(k - LEAVES, vec![leaf(0, 9)]) })
                .collect();
            docs.push(doc("", place(ctx, k)));
        }
    }
    c.docs("places", "all pairs of node kinds in each of 10 kinds of parent", docs);

    // many children
    let widths: Vec<usize> = if c.quick() { (0..=60).collect() } else { (0..=200).collect() };
    let mut docs = vec![];
    for ctx in CONTEXTS {
        for &w in &widths {
            if w == 0 && !matches!(*ctx, "root" | "element" | "paren" | "svg" | "slot") {
                continue;
            }
            // two kinds of children in turn, the turn depending on the width
            let k = (0..w).map(|i| leaf([0, 4, 1, 5, 3, 2][(i + w) % 6], i + 1)).collect();
            docs.push(doc("", place(ctx, k)));
        }
    }
    let big: &[usize] = c.b(&[677], &[675, 676, 677, 702, 703, 1000]);
    for &w in big {
        for ctx in ["root", "element", "component"] {
            docs.push(doc("", place(ctx, (0..w).map(|i| leaf(0, i + 1)).collect())));
        }
    }
    c.docs("width", &format!("0..={} children and {big:?} in each of 10 kinds of parent", widths.len() - 1), docs);

    // deep nesting
    let depth = c.b(24, 48);
    let mut docs = vec![];
    for kind in 0..INNER + 2 {
        for d in 1..=depth {
            if kind == 5 && d > 16 {
                continue;
            }
            let mut k = vec![leaf(0, 1), leaf(4, 0)];
            for i in 0..d {
                k = match kind {
                    4 => vec![inner(i % 4, k), leaf(0, i + 2)],
                    5 => vec![el(comp("Layout")).kids(vec![el(comp("Item")).kids(k).slot()]).c()],
                    n => vec![inner(n, k), leaf(0, i + 2)],
                };
            }
            docs.push(doc("", k));
        }
    }
    c.docs("depth", &format!("nesting 1..={depth} of each inner kind, all in turn, and slots (16)"), docs);

    // the texts themselves
    let mut texts: Vec<Child> = ["", " ", "  ", "\n", "\t ", " a", "b ", "a\nb", "é\u{1F600}", "\u{a0}", "{x}", "{}", "{{", "%s", "true", "3", "-", "a", "\0", "slot:", "<i>&amp;</i>", "\\n", "\u{2028}", "'\""]
        .iter()
        .map(|t| txt(t))
        .collect();
    let raw = |src: &str, t: &str| Child::Val(lit(src, Rv::s(t)));
    texts.extend([
        raw("r\"\"", ""),
        raw("r\"\\n\"", "\\n"),
        raw("r#\" \"q\" \"#", " \"q\" "),
        raw("r##\"\"#\"##", "\"#"),
        raw("\"\\x41\\u{41}\"", "AA"),
        raw("\"a\\\"b\"", "a\"b"),
    ]);
    for t in ["", " ", "a ", "\n"] {
        texts.push(Child::Val(block(&format!("{t:?}"), Rv::s(t))));
        texts.push(Child::Val(bracket(&format!("{t:?}"), Rv::s(t))));
        texts.push(Child::Val(fmt(&format!("{t:?}"), t)));
    }
    let n = texts.len();
    let mut docs = vec![];
    for ctx in CONTEXTS {
        for (i, t) in texts.iter().enumerate() {
            docs.push(doc("", place(ctx, vec![t.clone()])));
            docs.push(doc("", place(ctx, vec![el(html("br")).c(), t.clone(), leaf(i % 4, 7)])));
            docs.push(doc("", place(ctx, vec![t.clone(), t.clone(), el(html("hr")).c(), t.clone()])));
        }
    }
    for s in seqs(n, 2) {
        docs.push(doc("", place(CONTEXTS[(s[0] + s[1]) % CONTEXTS.len()], vec![texts[s[0]].clone(), texts[s[1]].clone()])));
    }
    c.docs("texts", &format!("{n} texts alone, three times and with neighbours in each of 10 kinds of parent, and all pairs of them"), docs);
}
