//! Slots reach the prop of their name, in order.
use super::*;

fn slot_atoms() -> Vec<(Child, &'static str)> {
    let v = |n: &str| Child::Val(Val { src: format!("{{{n}}}"), rv: Rv::Var(n.into()), lazy: false });
    vec![
        (el(comp("Item")).at(At::Kv("n".into(), lit("1", Rv::i(1)))).kids(vec![txt("i1")]).slot(), ""),
        (el(comp("Head")).at(At::Kv("label".into(), str_lit("l"))).kids(vec![txt("h")]).slot(), "Head"),
        (txt("t"), ""),
        (el(comp("Item")).pkids(vec![el(html("br")).c(), txt("i2")]).slot(), ""),
        (el(comp("TwoWords")).kids(vec![txt("w")]).slot(), "TwoWords"),
        (el(html("p")).kids(vec![txt("e")]).c(), ""),
        (el(comp("ABTest")).at(At::Kv("the-name".into(), str_lit("ab"))).kids(vec![txt("x")]).slot(), "ABTest"),
        (
            el(comp("Outer"))
                .kids(vec![
                    el(comp("Inner")).at(At::Kv("label".into(), str_lit("1"))).kids(vec![txt("n1")]).slot(),
                    txt("o"),
                    el(comp("Inner")).at(At::Kv("label".into(), str_lit("2"))).slot(),
                    el(comp("Head")).kids(vec![txt("oh")]).slot(),
                ])
                .slot(),
            "Outer",
        ),
        (el(comp("Row")).args("|i|", &["i"]).kids(vec![v("i"), txt("r")]).slot(), "Row"),
        (el(comp("Type")).kids(vec![txt("ty")]).slot(), "Type"),
        (el(comp("Item")).at(At::Kv("n".into(), block("2 + 1", Rv::i(3)))).slot(), ""),
        (Child::Val(block("5", Rv::i(5))), ""),
        (el(comp("Item")).kids(vec![]).slot(), ""),
        (el(comp("Item")).slot(), ""),
        (el(comp("Layout")).kids(vec![el(comp("Item")).kids(vec![txt("in")]).slot(), el(comp("Head")).slot(), txt("lay")]).c(), ""),
    ]
}

pub fn run(c: &mut Ctx) {
    let atoms = slot_atoms();
    let mut docs = vec![];
    for n in 0..=c.b(3, 4) {
        for s in seqs(atoms.len(), n) {
            let mut once: Vec<_> = s.iter().map(|&i| atoms[i].1).filter(|x| !x.is_empty()).collect();
            let k = once.len();
            once.sort();
            once.dedup();
            if once.len() < k {
                continue;
            }
            let j: usize = s.iter().sum();
            if n == 4 && j % 5 != 0 {
                continue;
            }
            let kids: Vec<Child> = s.iter().map(|&i| atoms[i].0.clone()).collect();
            let e = el(comp("Layout"));
            let e = if j % 3 == 0 { e.at(At::Kv("n".into(), lit("4", Rv::i(4)))) } else { e };
            docs.push(doc("", vec![if j % 2 == 0 { e.kids(kids).c() } else { e.pkids(kids).c() }]));
        }
    }
    c.docs("sequences", "all sequences of up to 3 (4, one in five) of 15 slots and children", docs);

    let mut docs = vec![];
    for ctx in CONTEXTS {
        for (i, a) in atoms.iter().enumerate() {
            let b = &atoms[(i + 3) % atoms.len()];
            let mut kids = vec![a.0.clone()];
            if a.1 != b.1 || a.1.is_empty() {
                kids.push(b.0.clone());
            }
            docs.push(doc("", place(ctx, vec![el(comp("Layout")).kids(kids.clone()).c(), el(comp("deep::er::Layout")).pkids(kids).c()])));
        }
    }
    c.docs("places", "15 pairs of slots in each of 10 kinds of parent, twice", docs);

    // many slots
    let mut docs = vec![];
    for n in 0..=c.b(60, 200) {
        for mix in 0..3 {
            let mut kids = vec![];
            for i in 0..n {
                let it = el(comp("Item")).at(At::Kv("n".into(), lit(&i.to_string(), Rv::i(i as i64))));
                kids.push(if i % 2 == mix % 2 { it.kids(vec![txt(&format!("s{i}"))]).slot() } else { it.slot() });
                if mix == 1 && i % 3 == 0 {
                    kids.push(txt(&format!("c{i}")));
                }
                if mix == 2 && i == n / 2 {
                    kids.push(el(comp("Head")).kids(vec![txt("hd")]).slot());
                }
            }
            docs.push(doc("", vec![el(comp("Layout")).kids(kids).c()]));
        }
    }
    // slots in slots
    for d in 1..=c.b(10, 16) {
        let mut k = vec![txt("deep")];
        for i in 0..d {
            let s = match i % 3 {
                0 => el(comp("Item")).kids(k).slot(),
                1 => el(comp("Outer")).kids(vec![el(comp("Inner")).kids(k).slot()]).slot(),
                _ => el(comp("Outer")).kids(vec![txt("b"), el(comp("Head")).kids(k).slot(), el(comp("Inner")).slot()]).slot(),
            };
            k = vec![txt("a"), el(comp("Layout")).kids(vec![txt("c"), s]).c()];
        }
        docs.push(doc("", k));
    }
    c.docs("amount", "0..=60 slots of one name, among others; slots in slots 10 deep", docs);

    // props of slots, in any spelling, kind of value and order
    let mut docs = vec![];
    for (i, v) in [str_lit("v"), block("\"b\"", Rv::s("b")), block("String::from(\"o\")", Rv::s("o")), block("format!(\"{}\", 1)", Rv::s("1"))].into_iter().enumerate() {
        for key in ["the-name", "the_name", "r#the_name", "the - name"] {
            let e = el(comp("ABTest")).at(At::Kv(key.into(), v.clone()));
            docs.push(doc("", vec![el(comp("Layout")).kids(vec![if i % 2 == 0 { e.kids(vec![txt("q")]).slot() } else { e.pkids(vec![txt("q")]).slot() }]).c()]));
        }
    }
    for key in ["the-name", "the_name"] {
        docs.push(doc("let the_name = \"tn\";", vec![el(comp("Layout")).kids(vec![el(comp("ABTest")).at(At::Short(key.into(), Rv::s("tn"))).kids(vec![txt("q")]).slot()]).c()]));
    }
    docs.push(doc("let n = 7; let label = \"lb\";", vec![el(comp("Layout")).kids(vec![el(comp("Item")).at(At::Short("n".into(), Rv::i(7))).slot(), el(comp("Head")).at(At::Short("label".into(), Rv::s("lb"))).slot()]).c()]));
    for p in ["|i|", "|i: i32|", "|mut i|", "|i @ _|"] {
        for (j, kids) in [
            vec![Child::Val(Val { src: "{i}".into(), rv: Rv::Var("i".into()), lazy: false })],
            vec![txt("a"), el(html("p")).kids(vec![Child::Val(Val { src: "{i}".into(), rv: Rv::Var("i".into()), lazy: false })]).c()],
            vec![el(comp("Opt")).kids(vec![Child::Val(Val { src: "[i]".into(), rv: Rv::Var("i".into()), lazy: true })]).c(), txt("b")],
        ]
        .into_iter()
        .enumerate()
        {
            let s = el(comp("Row")).args(p, &["i"]);
            let s = if j % 2 == 0 { s.kids(kids).slot() } else { s.pkids(kids).slot() };
            docs.push(doc("", vec![el(comp("Layout")).kids(vec![txt("x"), s.clone()]).c()]));
            docs.push(doc("", vec![el(comp("Layout")).kids(vec![el(comp("Item")).kids(vec![el(comp("Layout")).kids(vec![s]).c()]).slot()]).c()]));
        }
    }
    c.docs("props", "props of slots in every spelling; arguments of slots", docs);

    // names, among similar names
    let words = ["Tab", "A", "Tab2", "Taba", "T10", "X1y", "Type", "Tab02"];
    let mut names: Vec<String> = words.iter().map(|w| w.to_string()).collect();
    for a in words {
        for b in words {
            // letters on their own make acronyms, which one may read differently
            if !(a == "A" && b == "A") {
                names.push(format!("{a}{b}"));
            }
        }
    }
    names.extend(["Tab2A3", "TabX1Y2", "Z", "Q9", "SelfTab", "Tab_2", "TabCrate"].map(String::from));
    let snake = |n: &str| {
        let mut s = String::new();
        for (i, ch) in n.chars().enumerate() {
            if ch.is_ascii_uppercase() && i > 0 {
                s.push('_');
            }
            s.push(ch.to_ascii_lowercase());
        }
        s
    };
    names.sort_by_key(|n| (n.to_lowercase().replace(['0', '2', '_'], ""), n.clone()));
    let mut progs = vec![];
    let width = 4;
    for w in names.windows(width) {
        let items = format!(
            "named_props! {{ Named; k; {} }}",
            w.iter().map(|n| format!("r#{} {n}", snake(n))).collect::<Vec<_>>().join(" ")
        );
        for s in seqs(width, c.b(3, 4)) {
            if c.quick() && (s[0] + 2 * s[1] + s[2]) % 4 != 0 && s[0] != s[2] {
                continue;
            }
            let mut order: Vec<usize> = vec![];
            for &i in &s {
                if !order.contains(&i) {
                    order.push(i);
                }
            }
            let src: Vec<String> = s.iter().enumerate().map(|(j, &i)| format!("slot:{} k={};", w[i], j + 1)).collect();
            let want: String = order
                .iter()
                .map(|&i| {
                    let ks: Vec<String> = s.iter().enumerate().filter(|(_, x)| **x == i).map(|(j, _)| format!("{}.{}", w[i], j + 1)).collect();
                    format!("{}=[{}],", snake(&w[i]), ks.join(" "))
                })
                .collect();
            let sorted = |s: &str| {
                let mut v: Vec<String> = s.split(',').map(str::to_string).collect();
                v.sort();
                v
            };
            let w2 = want.clone();
            progs.push((
                crate::real::Prog { items: items.clone(), code: format!("html(mview! {{ Named {{ {} }} }})", src.join(" ")) },
                crate::ctx::Want::Judge(want, std::rc::Rc::new(move |out: &str| (sorted(out) != sorted(&w2)).then(|| format!("want {w2}, got {out}")))),
            ));
        }
    }
    c.progs("names", &format!("{} names of slots, in groups of {width} similar ones of one parent, sequences of 3 (4) of them", names.len()), progs);
}
