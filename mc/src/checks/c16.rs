//! What the user writes as Rust reaches the expansion as it is.
use super::*;
use crate::{expand, par, real::Prog};
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

/// Tokens of expressions, patterns and types, and ones that mean something to the macro.
const TOKENS: &[&str] = &[
    "x", "self", "r#type", "_", "let", "move", "slot", "f", "class", "div", "Card", "a::b", "1", "-1.5f32", "\"s\"", "r#\"raw\"#", "b\"b\"", "'c'", "true", "'l", "$", ",", ";", ":", "=", "==", "..", "..=", "=>", "->", "&&", "&", "!", "?", "<", ">", "#[a]", "|", "{}", "{ y; }", "(z, 1)", "[w]", "m! { div { \"k\" } }", ".", "-", "@", "<<=",
];
const FEW: &[&str] = &["x", "r#type", "1", "\"s\"", "'l", ",", ";", "=", "..", "|", "{ y; }", "[w]", "(z)", "<", "-", ":"];

/// Where Rust is written: `$` is what is written there.
const PLACES: &[&str] = &[
    "{$}",
    "[$]",
    "f[$]",
    "div { {$} }",
    "div ( [$] )",
    "Card { {$} }",
    "Card { f[$] \"z\" }",
    "div title={$};",
    "div title=[$];",
    "div title=f[$];",
    "div title={$} { \"k\" }",
    "div data-x={$};",
    "div aria-label=[$];",
    "div class={$};",
    "div style=[$];",
    "div ref={$};",
    "div inner_html={$};",
    "div class:a={$};",
    "div class:a-b=[$];",
    "div style:a={$};",
    "div style:\"a\"=f[$];",
    "div prop:a={$};",
    "div on:click={$};",
    "div on:click:undelegated={$};",
    "div on:my-event={$};",
    "div use:d={$};",
    "div {..$};",
    "circle x={$};",
    "circle {..$};",
    "mi x=[$];",
    "my-el x={$};",
    "my-el class:a={$};",
    "Card a={$};",
    "Card a=[$];",
    "Card a-b=f[$];",
    "Card a={$} { \"k\" }",
    "Card class:a={$};",
    "Card style:a=[$];",
    "Card attr:title={$};",
    "Card attr:data-x={$};",
    "Card attr:class={$};",
    "Card attr:style={$};",
    "Card prop:a={$};",
    "Card on:click={$};",
    "Card on:click:undelegated={$};",
    "Card use:d={$};",
    "Card {..$};",
    "Card |$| { \"k\" }",
    "Card |$| ( {k} [v] )",
    "Card |a| { {$} }",
    "Card clone:a { {$} }",
    "Layout { slot:Head a={$}; }",
    "Layout { slot:Head a=[$]; }",
    "Layout { slot:Head |$| { \"k\" } }",
    "Layout { slot:Head { {$} } }",
    "Layout { slot:Head a={$} { \"k\" } slot:Head a={\"k\"}; \"x\" }",
];

/// What surrounds it.
const AROUND: &[&str] = &["§", "div { § }", "\"a\" § br;", "Card { § }", "Card |i| { br; § }", "Layout { slot:Head { § } }", "div title={v} ( {v} § [v] )"];

type Key = (String, Option<((usize, usize), (usize, usize))>, Vec<u64>);

fn at(s: proc_macro2::Span) -> Option<((usize, usize), (usize, usize))> { expand::range(s, s) }

fn digest(t: &TokenTree, sp: bool) -> u64 {
    let k: Key = match t {
        TokenTree::Group(g) => (
            format!("{:?}", g.delimiter()),
            if g.delimiter() == Delimiter::None { None } else { at(g.span()) },
            g.stream().into_iter().map(|t| digest(&t, sp)).collect(),
        ),
        TokenTree::Punct(p) => (p.as_char().to_string() + if sp && p.spacing() == Spacing::Joint { "j" } else { "" }, at(p.span()), vec![]),
        t => (t.to_string(), at(t.span()), vec![]),
    };
    par::hash(&k)
}

/// Without invisible groups that the macro adds: they mean nothing to the compiler.
fn spliced(ts: TokenStream) -> Vec<TokenTree> {
    ts.into_iter()
        .flat_map(|t| match t {
            TokenTree::Group(g) if g.delimiter() == Delimiter::None => spliced(g.stream()),
            t => vec![t],
        })
        .collect()
}

/// How often the tokens are in a stream or any group in it, in a row.
fn occurrences(hay: &TokenStream, needle: &[u64], sp: bool) -> usize {
    let mut n = 0;
    let mut level = vec![];
    for t in spliced(hay.clone()) {
        level.push(digest(&t, sp));
        if let TokenTree::Group(g) = &t {
            n += occurrences(&g.stream(), needle, sp);
        }
    }
    n + level.windows(needle.len()).filter(|w| *w == needle).count()
}

/// Tokens that lie in a byte range of a single-line text.
fn within(ts: &TokenStream, a: usize, b: usize, sp: bool, out: &mut Vec<u64>) {
    for t in ts.clone() {
        let (s, e) = (t.span().start().column, t.span().end().column);
        if s >= a && e <= b {
            out.push(digest(&t, sp));
        } else if let TokenTree::Group(g) = &t {
            if e > a && s < b {
                within(&g.stream(), a, b, sp, out);
            }
        }
    }
}

/// `text` has the user's Rust between `«` and `»`, once or several times.
fn judge(text: &str, found: &mut Vec<par::Found>) -> u64 { judge_n(text, true, found) }

/// Paths are parsed, and may be printed with other spacing.
fn judge_n(text: &str, once: bool, found: &mut Vec<par::Found>) -> u64 {
    let m = super::c15::unmark(text);
    // columns count characters
    let col = |b: usize| m.text[..b].chars().count();
    let ts: TokenStream = match m.text.parse() {
        Ok(t) => t,
        Err(e) => panic!("{}: {e}", m.text),
    };
    let o = expand::expand_ts(ts.clone());
    let mut bad = |what: String| found.push(par::Found { key: m.text.clone(), what, want: format!("{:?} verbatim", m.culprits.iter().map(|c| &m.text[c.0..c.1]).collect::<Vec<_>>()) });
    let h = match &o.tokens {
        Some(out) if !o.aborted && o.diagnostics.iter().all(|d| !d.is_error) && !expand::has_compile_error(out) => {
            for c in &m.culprits {
                let mut needle = vec![];
                within(&ts, col(c.0), col(c.1), once, &mut needle);
                assert!(!needle.is_empty(), "{text}");
                let n = occurrences(out, &needle, once);
                if n == 0 || once && n != 1 {
                    bad(format!("{:?} ({}..{}) is {n} times in the expansion: {}", &m.text[c.0..c.1], c.0, c.1, expand::render(out)));
                }
            }
            par::hash(&expand::render(out).len())
        }
        _ => {
            bad(format!("rejected: {:?}", o.diagnostics.iter().map(|d| d.message.clone()).collect::<Vec<_>>()));
            0
        }
    };
    drop((o, ts));
    expand::tick();
    h
}

/// Whether tokens can be written at a place at all.
fn fits(place: &str, toks: &[&str]) -> bool {
    // a single name after the tag is an attribute; what ends arguments ends them
    if place.contains("|$|") && toks.contains(&"|") {
        return false;
    }
    // `{a}` and `{..a}` right after the tag would be attributes
    if toks.is_empty() {
        return false;
    }
    true
}

fn inproc(c: &mut Ctx, name: &str, bound: &str, n: u64, text: impl Fn(u64) -> Option<String> + Sync) {
    let st = par::explore(n, |i| text(i).map(|t| super::c15::unmark(&t).text).unwrap_or_default(), |i, f| text(i).map_or(0, |t| judge(&t, f)));
    let s = (0..n).skip(n as usize / 2).find_map(&text).unwrap_or_default();
    c.inproc(name, bound, n, st, &s);
}

pub fn run(c: &mut Ctx) {
    expand::silence_panics();
    let seq = |alpha: &[&'static str], i: u64| -> Vec<&'static str> { par::decode(i, alpha.len()).into_iter().map(|j| alpha[j]).collect() };

    let np = PLACES.len() as u64;
    for (len, around) in [(c.b(1, 2), AROUND), (2, &AROUND[..1])] {
        let per = par::count(TOKENS.len(), len);
        inproc(c, "tokens", &format!("all sequences of up to {len} of 47 tokens in 56 places with {} surroundings", around.len()), per * np * around.len() as u64, |i| {
            let (s, p, a) = (seq(TOKENS, i % per), PLACES[(i / per % np) as usize], around[(i / per / np) as usize]);
            fits(p, &s).then(|| a.replace('§', &p.replace('$', &format!("«{}»", s.join(" ")))))
        });
    }
    let per = par::count(TOKENS.len(), 3);
    let places: &[&str] = if c.quick() { &["{$}", "[$]", "f[$]", "div title={$};", "div {..$};", "Card |$| { \"k\" }"] } else { PLACES };
    let np = places.len() as u64;
    inproc(c, "longer", "all sequences of up to 3 of 47 tokens in 6 (56) places", per * np, |i| {
        let (s, p) = (seq(TOKENS, i % per), places[(i / per) as usize]);
        fits(p, &s).then(|| p.replace('$', &format!("«{}»", s.join(" "))))
    });
    // every two places at the same time
    let few = &FEW[..c.b(3, 16)];
    let per = par::count(few.len(), 1);
    inproc(c, "pairs of places", "3 (16) tokens in all pairs of places", per * per * (PLACES.len() * PLACES.len()) as u64, |i| {
        let (s, i) = (seq(few, i % per), i / per);
        let (t, i) = (seq(few, i % per), i / per);
        let (p, q) = (PLACES[i as usize % PLACES.len()], PLACES[i as usize / PLACES.len()]);
        (fits(p, &s) && fits(q, &t)).then(|| format!("{} {}", p.replace('$', &format!("«{}»", s.join(" "))), q.replace('$', &format!("«{}»", t.join(" ")))))
    });
    // one element with values everywhere
    let hosts = [
        "div title={$} class:a=[$] style:b=f[$] prop:c={$} on:click={$} use:d={$} {..$} data-x=[$] { {$} [$] f[$] }",
        "Card.s a={$} class:a=[$] style:b=f[$] prop:c={$} on:click={$} use:d={$} {..$} attr:title=[$] b=f[$] |$| { {$} [$] f[$] }",
        "Layout a={$} { slot:Head a={$} b=[$] |$| { {$} } slot:Head c=f[$] { [$] } slot:Item { f[$] } {$} }",
    ];
    let per = par::count(FEW.len(), c.b(2, 4));
    inproc(c, "everywhere", "all sequences of up to 2 (4) of 16 tokens at all places of three elements at once", per * hosts.len() as u64, |i| {
        let s = seq(FEW, i % per);
        (!s.is_empty() && !s.contains(&"|")).then(|| hosts[(i / per) as usize].replace('$', &format!("«{}»", s.join(" "))))
    });
    // long ones
    let lens: Vec<usize> = (4..=c.b(40, 120)).chain(c.b(vec![50, 63, 64, 65, 100, 128, 200, 256, 300], vec![127, 128, 129, 200, 255, 256, 257, 300, 500, 1000])).collect();
    let long = |kind: usize, n: usize| -> String {
        match kind {
            // one after the other, from different starts
            0..=4 => (0..n).map(|i| TOKENS[(i + kind * 11) % TOKENS.len()]).collect::<Vec<_>>().join(" "),
            5 => vec!["x"; n].join(" + "),
            6 => vec!["x"; n].join(", "),
            7 => vec!["let a = 1"; n].join("; "),
            8 => vec!["\"s\""; n].join(" "),
            9 => format!("{}x{}", "(".repeat(n.min(60)), ")".repeat(n.min(60))),
            10 => format!("{}x{}", "[{".repeat(n.min(40)), "}]".repeat(n.min(40))),
            11 => format!("\"{}\"", "long text ".repeat(n)),
            12 => format!("a{}", "::b".repeat(n)),
            13 => format!("x{}", ".y(z)".repeat(n)),
            _ => "- ".repeat(n) + "x",
        }
    };
    let (nl, np) = (lens.len() as u64, PLACES.len() as u64);
    inproc(c, "long", "15 kinds of sequences of 4..=40 (120) and up to 300 (1000) tokens, or nested up to 80 deep, in 56 places", 15 * nl * np, |i| {
        let (k, i) = ((i % 15) as usize, i / 15);
        let (n, p) = (lens[(i % nl) as usize], PLACES[(i / nl) as usize]);
        let mut s = long(k, n);
        if p.contains("|$|") {
            s = s.split(' ').filter(|t| *t != "|").collect::<Vec<_>>().join(" ");
        }
        Some(p.replace('$', &format!("«{s}»")))
    });
    // literals
    let lits = ["\"\"", "\"a\"", "\"é\\n\\\"\"", "r\"a\"", "r##\"a\"#b\"##", "1", "0x1f", "1u8", "1_000i64", "1.5", "1e9", "1.0f32", "'c'", "'\\''", "b'c'", "b\"b\"", "br\"b\"", "c\"c\"", "true", "false", "1.5f64"];
    // (a literal with a minus is made of two tokens by the macro's parser)
    let places = ["div title=$;", "div data-x=$;", "div class:a=$;", "div style:a=$;", "div prop:a=$;", "div use:d=$;", "circle x=$;", "my-el x=$;", "Card a=$;", "Card class:a=$;", "Card attr:title=$;", "Card attr:data-x=$;", "Card prop:a=$;", "Card use:d=$;", "Layout { slot:Head a=$; }", "div title=$ { \"k\" }", "Card a=$ b=\"k\" { \"k\" }"];
    let mut v = vec![];
    for a in AROUND {
        for p in places {
            for l in lits {
                v.push(a.replace('§', &p.replace('$', &format!("«{l}»"))));
            }
        }
        for l in &lits[..5] {
            v.push(a.replace('§', &format!("br; «{l}»")));
            v.push(a.replace('§', &format!("div {{ «{l}» \"z\" }}")));
            v.push(a.replace('§', &format!("Card {{ «{l}» }}")));
        }
    }
    inproc(c, "literals", "21 literals in 20 places with 7 surroundings", v.len() as u64, |i| Some(v[i as usize].clone()));

    // paths and types of components, which are needed more than once
    let types = ["T", "i32", "&'static str", "Vec<T>", "Vec<Vec<T>>", "(A, B)", "[T; 2]", "fn(A) -> B", "dyn A + 'static", "<A as B>::C", "a::b::C<D>", "_", "T, U", "'a, T", "3", "{ 1 + 2 }", "A = B", "Box<dyn Fn(A, B) -> C>", "*const T", "impl A", "!"];
    let mut v = vec![];
    for a in AROUND {
        for t in types {
            for p in ["Gen<«$»>;", "Gen::<«$»>;", "a::Gen<«$»> x={1};", "Gen<«$»> { \"k\" }", "Gen::<«$»>.c |i| { \"k\" }", "Gen<A, «$»>;"] {
                // lifetimes come first
                if t.starts_with("'a") && p.contains("A,") {
                    continue;
                }
                v.push(a.replace('§', &p.replace('$', t)));
            }
        }
        for p in ["a::B", "a::b::c::D", "::a::B", "crate::A", "self::A", "super::A", "a::r#type::B"] {
            for e in [";", "{ \"k\" }", ".c #i a={1};", "|i| { \"k\" }"] {
                v.push(a.replace('§', &format!("«{p}» {e}")));
            }
        }
    }
    let st = par::explore(v.len() as u64, |i| super::c15::unmark(&v[i as usize]).text, |i, f| judge_n(&v[i as usize], false, f));
    c.inproc("paths", "21 types and 7 paths of components in 7 surroundings", v.len() as u64, st, &v[v.len() / 2]);

    // the compiler resolves them where they were written
    let progs = super::c18::passed_on(c.quick());
    c.progs("resolved", "28 places x 18 forms of values x 5 kinds of fragments (quick: half of the kinds) that a macro passes on from its caller, with variables of the same names in both", progs);

    // the compiler gets the same
    let pre = "let (x, y, w, z) = (1, 2, 3, 4); let _ = (x, y, w, z); ";
    let exprs = ["x", "x + 1", "{ y }", "(w, z).0", "x as i64", "-x", "!x", "[x][0]", "if x > 0 { y } else { z }", "match x { 1 => y, _ => z }", "x.max(y)", "i32::max(x, y)", "{ let a = x; a }", "vec![x, y].len()", "\"s\"", "r#\"s\"#", "'c'", "1.5", "0x1f", "stringify!(a b  c)", "stringify!( r#type ..= 'l $ ; )", "concat!(\"a\", 1)", "(|a: i32| a + 1)(x)", "x << 2", "std::mem::size_of::<Vec<i32>>()", "line!() == line!()", "(x == y) as u8", "x & y | z ^ w"];
    let mut progs = vec![];
    for e in exprs {
        for p in ["{$}", "[$]", "f[\"{}\", $]", "div { {$} }", "Card { [$] }", "div data-x={$}.to_string();", "div { br; f[\"{}\", $] }", "Each |i| { {let _ = i; $} }", "Layout { slot:Head { {$} } }"] {
            let p = p.replace("={$}.to_string()", "={($).to_string()}").replace("{$}", "{($).to_string()}").replace("[$]", "[($).to_string()]");
            let body = p.replace('$', e);
            let text = format!("{pre}let want = ({e}).to_string(); format!(\"{{}}\", html(mview! {{ {body} }}).contains(&want))");
            progs.push((Prog { items: String::new(), code: text }, crate::ctx::Want::Text("true".into())));
        }
    }
    c.progs("compiled", "28 expressions in 9 places, compiled and compared with their values", progs);
}
