//! Children of components: arguments, clones, order, absence.
use super::*;

fn var(n: &str) -> Val { Val { src: format!("{{{n}}}"), rv: Rv::Var(n.into()), lazy: false } }

/// A component with arguments for its children: name, pattern, names bound in
/// order of the values, names that can be used.
fn patterns() -> Vec<(&'static str, &'static str, Vec<&'static str>, Vec<&'static str>)> {
    vec![
        ("Each", "|i|", vec!["i"], vec!["i"]),
        ("Pair", "|(i, s)|", vec!["i", "s"], vec!["i", "s"]),
        ("Two", "|i, s|", vec!["i", "s"], vec!["i", "s"]),
        ("Points", "|Pt { x, y }|", vec!["x", "y"], vec!["x", "y"]),
        ("Each", "|_|", vec!["_"], vec![]),
        ("Each", "|i: i32|", vec!["i"], vec!["i"]),
        ("Each", "|mut i|", vec!["i"], vec!["i"]),
        ("Each", "| _i |", vec!["_i"], vec!["_i"]),
        ("Pair", "|(_, s)|", vec!["_", "s"], vec!["s"]),
        ("Pair", "|(i, ..)|", vec!["i"], vec!["i"]),
        ("Pair", "|(i, s): (i32, &'static str)|", vec!["i", "s"], vec!["i", "s"]),
        ("Two", "|i: i32, s: &'static str|", vec!["i", "s"], vec!["i", "s"]),
        ("Two", "|_, s|", vec!["_", "s"], vec!["s"]),
        ("Two", "|i, s,|", vec!["i", "s"], vec!["i", "s"]),
        ("Points", "|Pt { x: a, y: b }|", vec!["a", "b"], vec!["a", "b"]),
        ("Points", "|Pt { x, .. }|", vec!["x"], vec!["x"]),
        ("Points", "|mvbase::Pt { y, x: _ }|", vec!["_", "y"], vec!["y"]),
        ("Each", "|i @ _|", vec!["i"], vec!["i"]),
        ("Each", "|i,|", vec!["i"], vec!["i"]),
        ("Each", "|r#type|", vec!["r#type"], vec!["r#type"]),
        ("Each", "|#[allow(unused)] i|", vec!["i"], vec!["i"]),
        ("Each", "|i: <i32 as std::ops::Add>::Output|", vec!["i"], vec!["i"]),
        ("Nullary", "||", vec![], vec![]),
        ("Nullary", "| |", vec![], vec![]),
        ("Arr", "|[a, b]|", vec!["a", "b"], vec!["a", "b"]),
        ("Arr", "|[.., b]|", vec!["_", "b"], vec!["b"]),
        ("Nested", "|(a, (Pt { x, .. }, [q, _]))|", vec!["a", "x", "_", "q"], vec!["a", "x", "q"]),
        ("RefTo", "|&r|", vec!["r"], vec!["r"]),
        ("Res", "|(Ok(i) | Err(i))|", vec!["i"], vec!["i"]),
        ("Res", "|(Ok(i) | Err(i)): Result<i32, i32>|", vec!["i"], vec!["i"]),
    ]
}

fn kid(k: usize, vars: &[&str], n: usize) -> Child {
    let v = |j: usize| -> Val { if vars.is_empty() { str_lit(&format!("u{n}")) } else { var(vars[(n + j) % vars.len()]) } };
    match k {
        0 => Child::Val(v(0)),
        1 => txt(&format!("t{n}")),
        2 => el(html("p")).at(At::Kv("data-v".into(), v(0))).kids(vec![Child::Val(v(1)), el(html("br")).c()]).c(),
        3 => el(comp("Opt")).kids(vec![Child::Val(v(0)), txt(".")]).c(),
        4 => el(comp("Leaf")).c(),
        5 => el(comp("Props")).at(At::Kv("b".into(), if vars.is_empty() { v(0) } else { let x = v(0); Val { src: format!("{{format!(\"{{}}\", {})}}", &x.src[1..x.src.len() - 1]), rv: x.rv, lazy: false } })).c(),
        _ => Child::Val(if vars.is_empty() { bracket("\"z\"", Rv::s("z")) } else { let x = v(0); Val { src: format!("[{}]", &x.src[1..x.src.len() - 1]), rv: x.rv, lazy: true } }),
    }
}

/// How children use a clone; `$` is its name.
const USES: [&str; 14] = [
    "{$.get()} ",
    "b { [$.get()] } ",
    "{format!(\"{}\", $)} ",
    "{format!(\"{$}\")} ",
    "f[\"{$}\"] ",
    "f[\"{}\", $] ",
    "b title={$.get()}; ",
    "b title={format!(\"{$}\")}; ",
    "b data-x=f[\"{$:>2}\"]; ",
    "{let q = &$; q.get()} ",
    "{(|| $.get())()} ",
    "Leaf attr:data-x={$.get()}; ",
    "Card clone:$ { Bare clone:$ { {format!(\"{$}\")} } } ",
    "Opt attr:title={format!(\"{$}\")}; ",
];
/// Those that move it.
const USES_ONCE: [usize; 4] = [1, 4, 5, 8];

pub fn run(c: &mut Ctx) {
    let pats = patterns();
    let mut docs = vec![];
    for (name, p, binds, vars) in &pats {
        for n in 1..=c.b(2, 3) {
            for s in seqs(7, n) {
                let mut kids: Vec<Child> = s.iter().enumerate().map(|(i, &k)| kid(k, vars, i)).collect();
                if !vars.is_empty() {
                    // leaves no type open
                    kids.push(Child::Val(var(vars[0])));
                }
                let e = el(comp(name)).args(p, binds);
                let j = s.iter().sum::<usize>();
                docs.push(doc("", vec![if j % 2 == 0 { e.kids(kids).c() } else { e.pkids(kids).c() }]));
            }
        }
    }
    c.docs("arguments", "30 argument patterns with all sequences of up to 2 (3) of 7 kinds of children", docs);

    // attributes between the component and its arguments
    let mut docs = vec![];
    for (name, p, binds, vars) in &pats {
        for (j, a) in [
            vec![super::c04::dir("class", "on", None)],
            vec![super::c04::dir("attr", "title", Some(str_lit("q"))), At::Kv("n".into(), lit("3", Rv::i(3)))],
            vec![At::Kv("n".into(), block("1", Rv::i(1))), super::c04::dir("style", "top", Some(str_lit("1px")))],
            vec![At::Kv("n".into(), lit("1", Rv::i(1))), super::c04::dir("clone", "cl", None)],
            vec![],
        ]
        .into_iter()
        .enumerate()
        {
            let a: Vec<At> = a.into_iter().filter(|a| *name == "Each" || !matches!(a, At::Kv(..))).collect();
            let mut e = el(comp(name)).ats(a).args(p, binds);
            if j % 2 == 0 {
                e = e.sel(Sel::Class("s".into()));
            }
            let mut kids = vec![kid(2, vars, 0), kid(1, vars, 1)];
            if !vars.is_empty() {
                kids.push(Child::Val(var(vars[vars.len() - 1])));
                kids.push(Child::Val(var(vars[0])));
            }
            for ctx in CONTEXTS {
                docs.push(doc("let cl = String::from(\"c\");", place(ctx, vec![txt("^"), e.clone().kids(kids.clone()).c(), el(html("hr")).c()])));
            }
        }
    }
    c.docs("with attributes", "30 argument patterns after 5 attribute lists in each of 10 kinds of parent", docs);

    // nested, also with the same names
    let mut docs = vec![];
    for (n1, p1, b1, v1) in &pats {
        for (n2, p2, b2, v2) in &pats {
            if v1.is_empty() && v2.is_empty() {
                continue;
            }
            let mut inner: Vec<Child> = v2.iter().map(|v| Child::Val(var(v))).collect();
            inner.extend(v1.iter().map(|v| Child::Val(var(v))));
            inner.push(txt("/"));
            let mut outer = vec![el(comp(n2)).args(p2, b2).kids(inner).c()];
            outer.extend(v1.iter().map(|v| Child::Val(var(v))));
            docs.push(doc("", vec![el(comp(n1)).args(p1, b1).pkids(outer).c()]));
        }
    }
    c.docs("nested arguments", "all pairs of 30 argument patterns, one inside of the other", docs);

    // clones: the value must still be there afterwards, and be the same
    let mut progs = vec![];
    let t = crate::ctx::Want::Text;
    let hosts = ["Card", "Opt", "Twice", "Each", "slot"];
    let names = ["s", "a_b", "r#type"];
    let mut n = 0;
    for set in [&[0][..], &[0, 1], &[1, 0], &[2], &[0, 1, 2], &[2, 0, 1]] {
        for host in hosts {
            for before in [0, 1, 2] {
                for uses in 0..USES.len() {
                    let pre: String = set.iter().map(|&i| format!("let {} = Cl::new(\"{}\"); ", names[i], i)).collect();
                    let spelt = |i: usize| if i == 1 && n % 2 == 0 { "a-b".to_string() } else { names[i].to_string() };
                    let mut attrs: Vec<String> = set.iter().map(|&i| format!("clone:{}", spelt(i))).collect();
                    if before > 0 && host != "slot" {
                        attrs.insert(before - 1, "class:k".into());
                    }
                    let kids: String = set.iter().map(|&i| USES[uses].replace("{$", &format!("{{{}", if USES[uses].contains("\"{$") { names[i].trim_start_matches("r#") } else { names[i] })).replace('$', names[i])).collect();
                    let a = attrs.join(" ");
                    let el = match host {
                        "slot" => format!("Layout {{ slot:Head {a} {{ {kids} }} }}"),
                        "Each" => format!("Each {a} |_| {{ {kids} }}"),
                        h => format!("{h} {a} {{ {kids} }}"),
                    };
                    let after: String = set.iter().map(|&i| format!("{}.get() + \",\" + &", names[i])).collect();
                    // number of clones made before rendering
                    let code = format!("{pre} let v = {{ {} mview! {{ {el} }} }}; let built = take_log(); let h = html(v); let k = h.matches(\"=0\").count() + h.matches(\"=1\").count() + h.matches(\"=2\").count(); format!(\"{{}}/{{}}/{{}}\", k, {after}String::new(), {{ {} 0 }})", "", "");
                    if USES_ONCE.contains(&uses) && (host == "Twice" || host == "Each" || host == "slot") {
                        n += 1;
                        continue;
                    }
                    let times = match host { "Twice" | "Each" => 2, _ => 1 };
                    let want = format!("{}/{}/0", times * set.len(), set.iter().map(|i| format!("={i},")).collect::<String>());
                    progs.push((crate::real::Prog { items: String::new(), code }, t(want)));
                    n += 1;
                }
            }
        }
    }
    c.progs("clones", "6 lists of clone: directives on 5 kinds of parent, before, between and after others, used in 14 ways", progs);

    // absent and empty children, delimiters, order
    let mut docs = vec![];
    for e in [el(comp("Opt")), el(comp("Opt")).kids(vec![]), el(comp("Opt")).pkids(vec![]), el(comp("Layout")), el(comp("Layout")).kids(vec![]), el(comp("Props")).pkids(vec![]), el(comp("Layout")).kids(vec![el(comp("Head")).slot()]), el(comp("Layout")).kids(vec![el(comp("Head")).kids(vec![]).slot()])] {
        for ctx in CONTEXTS {
            docs.push(doc("", place(ctx, vec![e.clone().c(), txt("a"), e.clone().c()])));
        }
    }
    let hosts = ["Card", "Opt", "Twice", "Bare", "Layout", "Each", "Props"];
    for h in hosts {
        for n in 1..=c.b(2, 3) {
            for s in seqs(7, n) {
                let kids: Vec<Child> = s.iter().enumerate().map(|(i, &k)| kid(k, &[], i)).collect();
                let e = el(comp(h));
                let e = if h == "Each" { e.args("|_|", &["_"]) } else { e };
                docs.push(doc("", vec![if s[0] % 2 == 0 { e.kids(kids).c() } else { e.pkids(kids).c() }, txt("z")]));
            }
        }
    }
    c.docs("children", "absent and empty children; all sequences of up to 2 (3) of 7 children of 7 components", docs);
}
