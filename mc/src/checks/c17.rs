//! The expansion is a function of the input.
use super::*;
use crate::{ctx::Want, expand, par, real::Prog};
use std::{collections::HashMap, io::Write, process::{Command, Stdio}, rc::Rc};

/// Inputs that succeed, fail, recover and abort in all the ways there are.
const INPUTS: &[&str] = &[
    "",
    "\"a\"",
    "div;",
    "div.a #b title=\"x\" class:c={d} on:click={h} { \"k\" [v] f[\"{}\", v] }",
    "circle; mi; my-el; a; title;",
    "Card { \"k\" }",
    "a::B<T> x={1} y attr:z=\"1\" clone:w |i| { {i} {w} }",
    "Card.a #b #c class:d={e} use:f={1} {..s};",
    "Layout { slot:Head; slot:Item n=1; \"x\" slot:TwoWords { \"k\" } slot:Head a=2; }",
    "Layout { slot:Inner { slot:Outer { slot:Row; } slot:Inner; } slot:Type; slot:ABTest; }",
    "{ x } [ y ] f[\"z\"]",
    "br; br; br; br; br; br; br; br; br; br; br; br; br; br; br; br; br; br; br; br; br; br; br; br; br; br; br; br; br;",
    "div",
    "div title=;",
    "div title=g[1];",
    "div foo:a={1} class:b:c={1};",
    "div attr:a=\"1\" clone:b |x| { slot:Head; }",
    "Layout { slot:head; slot:a-b; slot:Head.c; slot:Head {..d}; slot:Head on:click={h}; slot:Item; }",
    "1 'c' ; \"x\"",
    "div { , } p;",
    ", div;",
    "div ! \"k\"",
    "slot:Head;",
    "br; slot:Head { \"k\" }",
    "div on:;",
    "Card class:= { \"k\" }",
    "A<T div;",
    "A::",
    "div |x",
    "Fn(i32) -> T;",
    "A(B);",
    "self; _; {_} a-r#b;",
    "div use:\"d\" {..};",
];

/// Everything there is to an expansion, with the place that each token comes from.
fn digest(src: &str) -> String {
    let ts: proc_macro2::TokenStream = src.parse().unwrap_or_else(|e| panic!("{src}: {e}"));
    let o = expand::expand_ts(ts);
    let mut s = format!("{:?}", expand::plain(&o));
    if let Some(t) = &o.tokens {
        s.push_str("\nwith ");
        places(t, &mut s);
    }
    drop(o);
    expand::tick();
    s
}

fn places(ts: &proc_macro2::TokenStream, s: &mut String) {
    use proc_macro2::TokenTree;
    for t in ts.clone() {
        match &t {
            TokenTree::Group(g) => {
                s.push('(');
                places(&g.stream(), s);
                s.push(')');
            }
            t => s.push_str(&t.to_string()),
        }
        if let Some(((l, a), (m, b))) = expand::range(t.span(), t.span()) {
            s.push_str(&format!("@{l}.{a}-{m}.{b} "));
        }
    }
}

/// Inputs that are easily taken for each other, in groups.
fn similar() -> Vec<Vec<String>> {
    let v = |t: &str, names: &[&str]| -> Vec<String> { names.iter().map(|n| t.replace('§', n)).collect() };
    let camel = ["AbTest", "ABTest", "ABtest", "Abtest", "Ab_Test", "AbTest2", "AbTest20", "Ab2Test", "ÄbTest", "r#AbTest"];
    let kebab = ["ab-c", "ab_c", "abC", "ab--c", "ab-C", "abc", "AB-c", "ab-c-", "-ab-c", "ab-1", "ab-01", "ab-10", "äb-c"];
    let raw = ["type", "r#type", "Type", "typ", "type_", "_type", "type-", "types"];
    let vals = ["1", "-1", "1.0", "1_0", "10", "true", "\"1\"", "\"true\"", "{1}", "[1]", "f[\"1\"]", "{true}", "'1'", "b'1'", "{\"1\"}", "[\"1\"]", "[{1}]", "{ 1}", "r\"1\"", "\"\"", "{}"];
    let texts = ["\"a\"", "\"A\"", "\"a \"", "\" a\"", "r\"a\"", "\"\"", "{\"a\"}", "[\"a\"]", "f[\"a\"]", "{a}", "[a]", "a;", "A;", "a { }", "a()", "\"a\" \"a\"", "\"aa\"", "r#a;", "a-a;", "b;"];
    vec![
        v("L { slot:§; }", &camel),
        v("L { slot:§ { \"k\" } slot:§; }", &camel),
        v("§ { \"k\" }", &camel),
        v("§<T> a=1;", &["a::B", "A::B", "::a::B", "a::b::B", "a::r#B", "B", "B::B"]),
        v("B<§>;", &["T", "t::T", "Vec<T>", "T, T", "'a", "3", "{3}", "r#T", "&T"]),
        v("div §=\"x\";", &kebab),
        v("Card §=\"x\";", &kebab),
        v("div {§};", &["ab-c", "ab_c", "abC", "abc", "r#ab_c", "ab", "AB"]),
        v("Card {§};", &["ab-c", "ab_c", "abC", "abc", "r#ab_c", "ab", "AB"]),
        v("Card attr:§=\"x\";", &kebab),
        v("div.§;", &kebab),
        v("Card.§;", &kebab),
        v("div #§;", &kebab),
        v("div class:§=true;", &kebab),
        v("div class:\"§\"=true;", &kebab),
        v("div style:§=\"x\";", &kebab),
        v("div prop:§=1;", &kebab),
        v("div on:§={h};", &kebab),
        v("div on:§={h};", &["click", "Click", "click:undelegated", "dblclick", "clicks", "r#click"]),
        v("div use:§;", &["a", "A", "a=1", "a={1}", "r#a", "aa"]),
        v("div §=1;", &raw),
        v("Card §=1;", &raw),
        v("Card §;", &raw),
        v("div class:§=true;", &raw),
        v("div prop:§={1};", &raw),
        v("§;", &["a", "A", "circle", "title", "Title", "script", "a-b", "a-B", "my-el", "my-El", "r#a", "use_", "math", "mi", "div", "divs", "Div"]),
        v("svg { §; }", &["a", "circle", "title", "A", "style", "script", "text"]),
        v("div title=§;", &vals),
        v("Card title=§;", &vals),
        v("div class:a=§;", &vals[..16]),
        v("Card attr:title=§;", &vals),
        v("div { § }", &texts),
        v("Card { § }", &texts),
        v("§", &texts),
        v("Card |§| { \"k\" }", &["i", "_", "(i)", "i, j", "I", "i: T", "_i", "r#i", "(i, j)", "I { .. }"]),
        v("Card clone:§ { \"k\" }", &["i", "I", "_i", "r#i", "ii"]),
        v("div§", &[";", "{}", "()", "{ }", " ( ) ", "{;}", "", ".", "=", " a", " a=", " a:", " |i|", "{ , }"]),
        v("Card§", &[";", "{}", "()", "{ }", " ( ) ", "{;}", "", ".", "=", " a", " a=", " a:", " |i|", "{ , }"]),
        v("div {..§};", &["a", "A", "a()", "", "..a", "r#a"]),
        // the same, elsewhere
        v("§", &["div title=1 lang=2;", "div lang=2 title=1;", "  div title=1 lang=2;", "br; div title=1 lang=2;", "div title=1;", "div title=1; div title=1 lang=2;", "Card { div title=1 lang=2; }", "div title=1 lang=2"]),
        v("§", &["L { slot:Aa n=1; slot:Bb; }", "L { slot:Bb; slot:Aa n=1; }", "   L { slot:Aa n=1; slot:Bb; }", "br; L { slot:Aa n=1; slot:Bb; }", "L { slot:Aa { slot:Aa n=1; } slot:Bb; }", "L { slot:Aa n=1 }", "slot:Aa n=1;"]),
        v("§", &["Card |i| { {i} }", "  Card |i| { {i} }", "Card { Card |i| { {i} } }", "Card |i| { {i } }", "Card |i| { [i] }", "Card clone:i |i| { {i} }", "div |i| { {i} }"]),
        v("div foo:§;", &["a", "a=1", "a={1}", "b=1", "{a}", "a-b=1"]),
        v("Card §=g[1];", &["a", "b", "attr:a", "class:a", "A"]),
        v("div §;", &["a=", "b=", "a:", "class:", "class:a:b=1", "on:", "clone:a", "clone:A", "attr:a=1", "ref", "ref=", "ref=1"]),
    ]
}

/// Expands what it reads in a fresh process.
pub fn dump() {
    expand::silence_panics();
    let s = std::io::read_to_string(std::io::stdin()).unwrap();
    for l in s.lines() {
        println!("{:016x}", par::hash(&digest(l)));
    }
}

/// Digests of inputs by a new process.
fn fresh(inputs: &[&str]) -> Vec<u64> { fresh_by(Command::new(std::env::current_exe().unwrap()), inputs) }

fn fresh_by(mut cmd: Command, inputs: &[&str]) -> Vec<u64> {
    let mut p = cmd
        .arg("dump")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .spawn()
        .unwrap_or_else(|e| crate::real::infra(format!("{e}")));
    let text = inputs.iter().map(|i| format!("{i}\n")).collect::<String>();
    let mut stdin = p.stdin.take().unwrap();
    let t = std::thread::spawn(move || {
        let _ = stdin.write_all(text.as_bytes());
    });
    let out = p.wait_with_output().unwrap();
    let _ = t.join();
    String::from_utf8_lossy(&out.stdout).lines().map(|l| u64::from_str_radix(l, 16).unwrap()).collect()
}

pub fn run(c: &mut Ctx) {
    expand::silence_panics();
    // what each does when it is the first of its process
    let alone: Vec<u64> = INPUTS.iter().map(|i| fresh(&[i]).first().copied().unwrap_or(0)).collect();
    let alone = &alone;
    c.space("alone", "33 inputs, each the first of a new process", INPUTS.len() as u64);
    let compare = |h: &[usize], f: &mut Vec<par::Found>| {
        for (k, &i) in h.iter().enumerate() {
            let d = digest(INPUTS[i]);
            if par::hash(&d) != alone[i] {
                f.push(par::Found {
                    key: INPUTS[i].into(),
                    what: format!("after {:?} in the same process, it is: {}", h[..k].iter().map(|&j| INPUTS[j]).collect::<Vec<_>>(), d.chars().take(1500).collect::<String>()),
                    want: "the same as when it is the first of a process".into(),
                });
                break;
            }
        }
        par::hash(&h.last())
    };
    let show = |h: &[usize]| h.iter().map(|&j| INPUTS[j]).collect::<Vec<_>>().join("  THEN  ");

    // histories, each in a thread of its own
    let max = c.b(2, 3);
    let n = par::count(INPUTS.len(), max);
    let st = par::explore(n, |i| show(&par::decode(i, INPUTS.len())), |i, f| {
        let h = par::decode(i, INPUTS.len());
        let mut found = vec![];
        std::thread::scope(|s| {
            let found = &mut found;
            s.spawn(|| compare(&h, found)).join().unwrap();
        });
        f.append(&mut found);
        par::hash(&h)
    });
    c.inproc("histories in new threads", "all sequences of up to 2 (3) of 33 inputs", n, st, "");
    // histories in used threads
    let max = c.b(3, 4);
    let n = par::count(INPUTS.len(), max);
    let st = par::explore(n, |i| show(&par::decode(i, INPUTS.len())), |i, f| compare(&par::decode(i, INPUTS.len()), f));
    c.inproc("histories in used threads", "all sequences of up to 3 (4) of 33 inputs", n, st, "");
    // histories in new processes
    let mut hs = vec![];
    for (i, _) in INPUTS.iter().enumerate() {
        for (j, _) in INPUTS.iter().enumerate() {
            hs.push(vec![i, j]);
            if !c.quick() {
                hs.extend((0..INPUTS.len()).step_by(4).map(|k| vec![i, j, k]));
            }
        }
    }
    let st = par::explore(hs.len() as u64, |i| show(&hs[i as usize]), |i, f| {
        let h = &hs[i as usize];
        let got = fresh(&h.iter().map(|&j| INPUTS[j]).collect::<Vec<_>>());
        for (k, &j) in h.iter().enumerate() {
            if got.get(k) != Some(&alone[j]) {
                f.push(par::Found { key: INPUTS[j].into(), what: format!("differs after {:?} in a new process", h[..k].iter().map(|&j| INPUTS[j]).collect::<Vec<_>>()), want: "the same as when it is the first of a process".into() });
            }
        }
        par::hash(&got)
    });
    c.inproc("histories in new processes", "all pairs of 33 inputs", hs.len() as u64, st, "");
    // the same, very often
    let st = par::explore(INPUTS.len() as u64, |i| INPUTS[i as usize].to_string(), |i, f| {
        for _ in 0..c_often() {
            if compare(&[i as usize], f) == 0 || !f.is_empty() {
                break;
            }
        }
        i
    });
    c.inproc("very often", "300 times each of 33 inputs", INPUTS.len() as u64 * c_often(), st, "");

    // nothing depends on hashing: slots, attributes and children of many names
    let slots = ["slot:Head;", "slot:Item n={1};", "slot:TwoWords { \"k\" }", "slot:ABTest a={2};", "slot:Type { slot:Inner; slot:Outer; slot:Row; }", "\"x\""];
    let n = par::count(slots.len(), c.b(5, 6));
    let text = |i: u64| format!("Layout {{ {} }}", par::decode(i, slots.len()).into_iter().map(|j| slots[j]).collect::<Vec<_>>().join(" "));
    let st = par::explore(n, text, |i, f| {
        let t = text(i);
        let d = digest(&t);
        for k in 0..4 {
            let e = digest(&t);
            if e != d {
                f.push(par::Found { key: t.clone(), what: format!("the {}. expansion differs from the first: {e}", k + 2), want: d.clone() });
                break;
            }
        }
        par::hash(&d)
    });
    c.inproc("slots", "all sequences of up to 5 (6) of 6 slots and children, 5 times each", n, st, &text(n * 2 / 3));
    let attrs = ["a={1}", "class:b={2}", "clone:c", "{..d}", "on:click={e}", ".f", "attr:g=\"1\"", "use:h", "{i}"];
    let n = par::count(attrs.len(), 5) * 2;
    let text = |i: u64| {
        let mut seq = par::decode(i / 2, attrs.len());
        seq.sort_by_key(|&j| j != 5);
        format!("{} {} {{ \"k\" }}", ["Card", "Layout"][(i % 2) as usize], seq.into_iter().map(|j| attrs[j]).collect::<Vec<_>>().join(" "))
    };
    let st = par::explore(n, text, |i, f| {
        let t = text(i);
        let d = digest(&t);
        if digest(&t) != d || digest(&t) != d {
            f.push(par::Found { key: t.clone(), what: "expansions differ".into(), want: d.clone() });
        }
        par::hash(&d)
    });
    c.inproc("attributes", "all sequences of up to 5 of 9 attributes on components, 3 times each", n, st, &text(n * 2 / 3));

    // inputs that differ in little
    let groups = similar();
    let flat: Vec<&str> = groups.iter().flatten().map(String::as_str).collect();
    let mut of = vec![];
    for (g, v) in groups.iter().enumerate() {
        of.extend(v.iter().map(|_| g));
    }
    let alone: Vec<std::sync::OnceLock<u64>> = flat.iter().map(|_| Default::default()).collect();
    par::explore(flat.len() as u64, |i| flat[i as usize].to_string(), |i, _| *alone[i as usize].get_or_init(|| fresh(&[flat[i as usize]]).first().copied().unwrap_or(0)));
    let alone: Vec<u64> = alone.iter().map(|a| a.get().copied().unwrap_or(0)).collect();
    // a new process for each input, followed by all others of its group
    let st = par::explore(flat.len() as u64, |i| flat[i as usize].to_string(), |i, f| {
        let i = i as usize;
        let first = of.iter().position(|g| *g == of[i]).unwrap();
        let last = of.iter().rposition(|g| *g == of[i]).unwrap();
        // in both directions, so that each pair is next to each other at the beginning or not
        for rev in [false, true] {
            let mut h: Vec<usize> = (first..=last).filter(|&j| j != i).collect();
            if rev {
                h.reverse();
            }
            let seq: Vec<usize> = [i].into_iter().chain(h.iter().copied()).chain([i]).collect();
            let got = fresh(&seq.iter().map(|&j| flat[j]).collect::<Vec<_>>());
            for (k, &j) in seq.iter().enumerate() {
                if got.get(k) != Some(&alone[j]) {
                    f.push(par::Found { key: flat[j].into(), what: format!("differs after {:?} in a new process", seq[..k].iter().map(|&j| flat[j]).collect::<Vec<_>>()), want: "the same as when it is the first of a process".into() });
                    break;
                }
            }
        }
        i as u64
    });
    c.inproc("similar, in new processes", &format!("{} inputs in {} groups of similar ones, each followed by its whole group in both orders", flat.len(), groups.len()), flat.len() as u64 * 2, st, flat[0]);
    // all pairs of a group in new processes
    let mut hs = vec![];
    for i in 0..flat.len() {
        for j in 0..flat.len() {
            if of[i] == of[j] && i != j || !c.quick() && (i + j) % 8 == 0 {
                hs.push([i, j]);
            }
        }
    }
    let st = par::explore(hs.len() as u64, |i| hs[i as usize].map(|j| flat[j]).join("  THEN  "), |i, f| {
        let h = hs[i as usize];
        let got = fresh(&h.map(|j| flat[j]));
        for (k, &j) in h.iter().enumerate() {
            if got.get(k) != Some(&alone[j]) {
                f.push(par::Found { key: flat[j].into(), what: format!("differs after {:?} in a new process", h[..k].iter().map(|&j| flat[j]).collect::<Vec<_>>()), want: "the same as when it is the first of a process".into() });
            }
        }
        par::hash(&got)
    });
    c.inproc("similar, pairs in new processes", "all pairs of similar inputs (and an eighth of all pairs)", hs.len() as u64, st, "");
    // all pairs of all, in used threads
    let n = (flat.len() * flat.len()) as u64;
    let st = par::explore(n, |i| [i as usize / flat.len(), i as usize % flat.len()].map(|j| flat[j]).join("  THEN  "), |i, f| {
        let h = [i as usize / flat.len(), i as usize % flat.len()];
        for j in h {
            let d = digest(flat[j]);
            if par::hash(&d) != alone[j] {
                f.push(par::Found { key: flat[j].into(), what: format!("after {:?} and others in the same process, it is: {}", flat[h[0]], d.chars().take(1500).collect::<String>()), want: "the same as when it is the first of a process".into() });
                break;
            }
        }
        par::hash(&h)
    });
    c.inproc("similar, in used threads", "all pairs of all these inputs", n, st, "");

    // what is not part of the input: the environment, the directory, the way the macro was built
    let vocabulary = vocabulary();
    let all: Vec<&str> = INPUTS.iter().copied().chain(flat.iter().copied()).chain(vocabulary.iter().map(String::as_str)).collect();
    let asks = std::sync::atomic::AtomicU64::new(0);
    let st = par::explore(all.len() as u64, |i| all[i as usize].to_string(), |i, f| {
        let t = all[i as usize];
        let (d, asked) = expand::env::with(None, || digest(t));
        // Rust's own, for panics
        let asked: std::collections::BTreeSet<String> = asked.into_iter().filter(|a| !a.starts_with("RUST_")).collect();
        let mut todo: Vec<String> = asked.iter().cloned().collect();
        let mut done = asked;
        while let Some(name) = todo.pop() {
            for v in ["", "0", "1", "true", "false", "debug", "release", "never", "x"] {
                asks.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let (e, more) = expand::env::with(Some((&name, v)), || digest(t));
                if e != d {
                    f.push(par::Found { key: t.into(), what: format!("with {name}={v:?} in the environment, it is: {e}"), want: d.clone() });
                    return 1;
                }
                for m in more {
                    if !m.starts_with("RUST_") && done.insert(m.clone()) {
                        todo.push(m);
                    }
                }
            }
        }
        par::hash(&d)
    });
    c.inproc("environment", &format!("{} inputs, among them every name that leptos knows; every variable that the expansion asks for, with 9 values", all.len()), all.len() as u64, st, all[0]);
    c.note(format!("{} expansions with a variable set", asks.into_inner()));
    let mut here = vec![];
    for (what, prep) in WORLDS {
        let mut cmd = Command::new(std::env::current_exe().unwrap());
        prep(&mut cmd);
        here.push((*what, cmd));
    }
    if let Ok(rel) = std::env::var("MC_RELEASE") {
        here.push(("built without debug assertions", Command::new(rel)));
    }
    let base = fresh(&all);
    let n = (here.len() * all.len()) as u64;
    let mut found = vec![];
    for (what, cmd) in here {
        let got = fresh_by(cmd, &all);
        for (i, t) in all.iter().enumerate() {
            if got.get(i) != base.get(i) {
                found.push(par::Found { key: t.to_string(), what: format!("another outcome {what}"), want: digest(t) });
            }
        }
    }
    c.inproc("circumstances", "all of these inputs in 4 environments and directories, and by a macro built without debug assertions", n, par::Stats { found, outcomes: base.into_iter().collect() }, "");

    // the compiler: two invocations show what each of them shows alone
    let bad: Vec<&str> = INPUTS.iter().copied().filter(|i| { let e = expand::expand(i); !e.accepted() }).collect();
    let good = ["br;", "div.a title=\"x\" { \"k\" }", "Card { \"k\" }", "Layout { slot:Head; \"x\" }"];
    let all: Vec<&str> = bad.iter().copied().chain(good).collect();
    let errs: HashMap<&str, Vec<(String, Option<((usize, usize), (usize, usize))>)>> = all.iter().map(|&i| (i, expand::expand(i).diags.into_iter().filter(|d| d.msg != "compile_error!").map(|d| (d.msg, d.at)).collect())).collect();
    let errs = Rc::new(errs.into_iter().map(|(k, v)| (k.to_string(), v)).collect::<HashMap<_, _>>());
    let mut progs = vec![];
    for &a in &all {
        for &b in &all {
            if good.contains(&a) && good.contains(&b) {
                continue;
            }
            let code = format!("let _ = mview! {{ {a} }}; let _ = mview! {{ {b} }}; String::new()");
            let offs = [(a, "let _ = mview! { ".len()), (b, "let _ = mview! { ".len() * 2 + a.len() + " }; ".len())].map(|(i, o)| (i.to_string(), o));
            let errs = errs.clone();
            let want = Want::Errors(
                "the errors of both".into(),
                Rc::new(move |ds| {
                    for (i, o) in &offs {
                        for (m, at) in &errs[i] {
                            let at = at.map(|((_, a), (_, b))| (a + o, b + o));
                            if !ds.iter().any(|d| d.msg.split('\n').next() == m.split('\n').next() && (at.is_none() || d.primary.iter().any(|p| *p == at))) {
                                return Some(format!("the error {m:?} of {i:?} is missing at {at:?}: {}", ds.iter().map(|d| format!("{:?} at {:?}", d.msg, d.primary)).collect::<Vec<_>>().join(", ")));
                            }
                        }
                    }
                    None
                }),
            );
            progs.push((Prog { items: String::new(), code }, want));
        }
    }
    c.progs("compiler", "all pairs of invocations, at least one with errors, in one program", progs);
}

fn c_often() -> u64 { 300 }

/// Every name that leptos knows, where it can be written.
fn vocabulary() -> Vec<String> {
    use crate::tables as t;
    let mut v: Vec<String> = vec![];
    let tags = t::HTML.iter().map(|h| h.0).chain(t::SVG.iter().copied()).chain(t::MATH.iter().map(|m| m.0));
    v.extend(tags.map(|n| format!("{n} {{ \"k\" }}")));
    let extra = ["data-testid", "data-test", "data-cy", "data-debug", "key", "slot", "inner_html", "nonce", "class", "style", "id", "ref", "children"];
    let attrs = t::ATTRS.iter().map(|a| a.0).chain(t::ARIA.iter().copied()).chain(t::ONATTRS.iter().copied()).chain(extra);
    for a in attrs {
        v.push(format!("div {a}=\"x\"; x-y {a}; Leaf {a}=\"x\";"));
        v.push(format!("div {{{a}}}; div prop:{a}=1 class:{a}=true style:{a}=\"x\";"));
        v.push(format!("Leaf attr:{a}=\"x\"; Leaf.{a};"));
    }
    v.extend(t::EVENTS.iter().map(|e| format!("div on:{}={{h}}; Leaf on:{}:undelegated={{h}};", e.0, e.0)));
    v
}

type World = (&'static str, fn(&mut Command));
/// Where a compiler may run.
const WORLDS: &[World] = &[
    ("without any environment", |c| {
        c.env_clear();
    }),
    ("in another directory", |c| {
        c.current_dir("/");
    }),
    ("in a build for release by cargo", |c| {
        let vars = [("PROFILE", "release"), ("OPT_LEVEL", "3"), ("DEBUG", "false"), ("TARGET", "wasm32-unknown-unknown"), ("CARGO_CFG_TARGET_ARCH", "wasm32"), ("CARGO_PKG_NAME", "other"), ("CARGO_CRATE_NAME", "other"), ("CARGO_MANIFEST_DIR", "/"), ("LEPTOS_OUTPUT_NAME", "x"), ("LEPTOS_SITE_ROOT", "x"), ("LEPTOS_WATCH", "1"), ("LEPTOS_ENV", "PROD"), ("CARGO", "cargo"), ("CARGO_INCREMENTAL", "0")];
        c.env_clear().envs(vars);
    }),
    ("for an editor, in another language", |c| {
        c.env_clear().envs([("RUST_ANALYZER_INTERNALS_DO_NOT_USE", "1"), ("LANG", "tr_TR.UTF-8"), ("LC_ALL", "tr_TR.UTF-8"), ("CI", "true"), ("TERM", "dumb"), ("NO_COLOR", "1"), ("RUST_BACKTRACE", "1")]).current_dir("/tmp");
    }),
];
