//! Totality: every input ends in an expression or in errors.
use super::*;
use crate::{expand, par};
use proc_macro2::{Delimiter, Group, Spacing, TokenStream, TokenTree};

pub type Atom = Vec<TokenTree>;

/// Atoms are written as source; `⟪..⟫` is a group without delimiters.
pub fn atom(s: &str) -> Atom {
    if let Some(r) = s.strip_prefix('⟪') {
        let inner: TokenStream = r.trim_end_matches('⟫').parse().unwrap();
        return vec![TokenTree::Group(Group::new(Delimiter::None, inner))];
    }
    s.parse::<TokenStream>().unwrap_or_else(|e| panic!("{s}: {e}")).into_iter().collect()
}

pub fn show(ts: &TokenStream) -> String { expand::render(ts).trim().to_string() }

/// Whether all that the user wrote as Rust is Rust: blocks, brackets, spreads.
fn user_code_ok(ts: &TokenStream) -> bool {
    let toks: Vec<TokenTree> = ts.clone().into_iter().collect();
    for (i, t) in toks.iter().enumerate() {
        match t {
            TokenTree::Group(g) => {
                let inner = g.stream();
                let ok = match g.delimiter() {
                    Delimiter::Brace | Delimiter::Bracket => {
                        let block = TokenTree::Group(Group::new(Delimiter::Brace, inner.clone()));
                        let spread = rest_of_spread(&inner);
                        let prefixed = i > 0 && matches!(&toks[i - 1], TokenTree::Ident(_)) && g.delimiter() == Delimiter::Bracket;
                        // syn itself is not sure about groups of nothing
                        let nothing = inner.clone().into_iter().any(|t| matches!(t, TokenTree::Group(g) if g.delimiter() == Delimiter::None && g.stream().is_empty()));
                        let block_ok = syn::parse2::<syn::Block>(TokenStream::from(block)).is_ok();
                        !nothing
                            && (prefixed
                                || match spread {
                                    Some(r) => r.is_empty() || block_ok && syn::parse2::<syn::Expr>(quote::quote!((#r,))).is_ok(),
                                    None => block_ok,
                                })
                    }
                    _ => true,
                };
                if !(ok && user_code_ok(&inner)) {
                    return false;
                }
            }
            // closure arguments
            TokenTree::Punct(p) if p.as_char() == '|' => return false,
            _ => {}
        }
    }
    true
}

fn rest_of_spread(ts: &TokenStream) -> Option<TokenStream> {
    let mut it = ts.clone().into_iter();
    match (it.next(), it.next()) {
        (Some(TokenTree::Punct(a)), Some(TokenTree::Punct(b))) if a.as_char() == '.' && b.as_char() == '.' && a.spacing() == Spacing::Joint => Some(it.collect()),
        _ => None,
    }
}

/// Checks one input; a digest of the outcome.
fn judge(ts: TokenStream, found: &mut Vec<par::Found>) -> u64 {
    let o = expand::expand_ts(ts.clone());
    let errs = o.diagnostics.iter().filter(|d| d.is_error).count();
    let complain = |found: &mut Vec<par::Found>, what: String| {
        found.push(par::Found { key: show(&ts), what, want: "an expression, or an error and an expression".into() })
    };
    if let Some(p) = &o.panicked {
        complain(found, format!("the macro panics: {p}"));
        return 1;
    }
    let kind = if o.aborted {
        if errs == 0 {
            complain(found, "aborted without an error".into());
        }
        2
    } else {
        let Some(out) = &o.tokens else {
            complain(found, "no output".into());
            return 3;
        };
        let ce = expand::has_compile_error(out);
        if !expand::is_expr(out.clone()) && user_code_ok(&ts) {
            // `compile_error!` alone is an expression, too
            complain(found, format!("{} the output is no expression: {}", if errs > 0 || ce { "in addition to an error," } else { "no error, but" }, show(out)));
        }
        if errs > 0 || ce {
            4
        } else {
            5
        }
    };
    if kind != 5 {
        match &o.dummy {
            Some(d) if expand::is_expr(d.clone()) => {}
            d => complain(found, format!("error without a replacement expression: {:?}", d.as_ref().map(show))),
        }
    }
    par::hash(&(kind, o.diagnostics.iter().map(|d| d.message.clone()).collect::<Vec<_>>()))
}

pub const WRAPS: &[&str] = &["div { $ }", "Card { $ }", "div ( $ )", "Card |x| { $ }", "Layout { slot:Head { $ } }", "div title={ $ } ;", "Card { div { $ } \"z\" }", "\"a\" $ br;", "div $ ;", "Card $ ;", "div $ { \"k\" }", "Layout { slot:Head $ ; }", "div title= $ ;", "Card clone: $ ;", "div on: $ ;", "Gen< $ >;"];

fn wrap(w: &str, inner: TokenStream) -> TokenStream {
    fn go(ts: TokenStream, inner: &TokenStream) -> TokenStream {
        ts.into_iter()
            .flat_map(|t| match t {
                TokenTree::Punct(p) if p.as_char() == '$' => inner.clone().into_iter().collect::<Vec<_>>(),
                TokenTree::Group(g) => vec![TokenTree::Group(Group::new(g.delimiter(), go(g.stream(), inner)))],
                t => vec![t],
            })
            .collect()
    }
    go(w.parse().unwrap(), &inner)
}

/// The alphabet; everything that the grammar looks at, and more.
pub fn alphabet() -> Vec<&'static str> {
    vec![
        "div", "Card", "slot", "f", "class", "r#type", "self", "_", "x-y", ".", "#", "-", ":", "=", ";", "|", "<", ">", ",", "..", "::", "\"s\"", "1", "'c'", "true", "{x}", "{}", "{..x}", "[y]", "(\"a\")", "()", "⟪\"s\"⟫", "⟪x⟫", "⟪⟫", "'l", "$", "on:", "clone:", "{..}", "[]", "1.5",
    ]
}

pub fn explore(c: &mut Ctx, name: &str, bound: &str, atoms: &[&str], max: usize, wraps: &[&str]) { explore_with(c, name, bound, atoms, max, wraps, judge) }

pub fn explore_with(c: &mut Ctx, name: &str, bound: &str, atoms: &[&str], max: usize, wraps: &[&str], judge: fn(TokenStream, &mut Vec<par::Found>) -> u64) {
    let k = atoms.len();
    let per = par::count(k, max);
    let n = per * wraps.len() as u64;
    let srcs: Vec<String> = atoms.iter().map(|s| s.to_string()).collect();
    // spans are not shared between threads: every thread has its own tokens
    thread_local! { static CACHE: std::cell::RefCell<Vec<(String, Atom)>> = const { std::cell::RefCell::new(vec![]) }; }
    let input = |i: u64| -> TokenStream {
        let w = wraps[(i / per) as usize];
        let seq = par::decode(i % per, k);
        let ts: TokenStream = CACHE.with(|c| {
            let mut c = c.borrow_mut();
            if c.len() != srcs.len() || c.iter().zip(&srcs).any(|(a, b)| a.0 != *b) {
                *c = srcs.iter().map(|s| (s.clone(), atom(s))).collect();
            }
            seq.iter().flat_map(|&j| c[j].1.clone()).collect()
        });
        if w == "$" { ts } else { wrap(w, ts) }
    };
    let st = par::explore(
        n,
        |i| show(&input(i)),
        |i, found| {
            let h = judge(input(i), found);
            if i % 4096 == 0 {
                // nothing alive but the cached atoms
                CACHE.with(|c| c.borrow_mut().clear());
                proc_macro2::extra::invalidate_current_thread_spans();
            }
            h
        },
    );
    c.inproc(name, bound, n, st, &format!("{}", srcs.join(" ")));
}

pub fn run(c: &mut Ctx) {
    expand::silence_panics();
    let all = alphabet();
    explore(c, "all tokens", "all sequences of up to 4 (5) of 41 tokens", &all, c.b(4, 5), &["$"]);
    explore(c, "inside", "all sequences of up to 3 of 41 tokens in 16 places", &all, 3, WRAPS);
    let core = ["div", "Card", "-", ".", "#", ":", "=", ";", "|", "\"s\"", "1", "{x}", "{..x}", "[y]", "(\"a\")", "slot", "f", "<", "⟪\"s\"⟫", "::"];
    explore(c, "common tokens", "all sequences of up to 5 of 20 tokens", &core, 5, &["$"]);
    let few = ["x", "-", ":", "=", ";", "\"s\"", "{x}", "1"];
    explore(c, "few tokens", "all sequences of up to 7 (8) of 8 tokens", &few, c.b(7, 8), &["$"]);
    let paths = ["A", "::", "<", ">", "x", ",", ";", "-", "(x)", "'l"];
    explore(c, "paths", "all sequences of up to 5 (6) of 10 tokens", &paths, c.b(5, 6), &["$", "div { $ }", "Layout { slot: $ }"]);
    let attrs = ["on", "class", "attr", "clone", ":", "x", "\"s\"", "=", "{x}", "-"];
    explore(c, "directives", "all sequences of up to 5 (6) of 10 tokens on an element, a component and a slot", &attrs, c.b(5, 6), &["div $ ;", "Card $ { \"k\" }", "Layout { slot:Head $ ; }"]);
    let odd = ["é", "Ñu", "日本", "r#é", "\"é😀\"", "'é'", "b\"x\"", "c\"x\"", "b'x'", "r#\"é\"#", "1u8", "1e5", "0x1f", "1_é", "99999999999999999999999999999999999999999", "''"];
    let odd: Vec<&str> = odd.into_iter().filter(|a| a.parse::<TokenStream>().is_ok()).collect();
    let with: Vec<&str> = odd.iter().copied().chain(["div", "-", ".", ":", "=", ";", "{é}", "[\"é\"]"]).collect();
    explore(c, "unusual tokens", "all sequences of up to 4 (5) of 14 unusual literals and names, and 8 common tokens", &with, c.b(4, 5), &["$"]);
    explore(c, "unusual tokens inside", "all sequences of up to 3 of 14 unusual literals and names, and 8 common tokens in 16 places", &with, 3, WRAPS);

    // deep and wide
    for (name, open, close) in [("div", "div {", "}"), ("Card", "Card (", ")"), ("slot", "Layout { slot:Head {", "} }"), ("args", "Each |i| {", "}")] {
        let max = c.b(60u64, 200);
        let srcs: Vec<String> = (0..=max).map(|d| format!("{}\"x\"{}", open.repeat(d as usize), close.repeat(d as usize))).collect();
        let st = par::explore(max + 1, |i| srcs[i as usize].clone(), |i, f| judge(srcs[i as usize].parse().unwrap(), f));
        c.inproc(&format!("depth {name}"), "0..=60 (200) levels", max + 1, st, open);
    }
    for a in ["div;", "\"s\"", "Leaf;", ";", "{x}", "slot:A;", "div title=;", "1"] {
        let srcs: Vec<String> = (0..=300).map(|d| vec![a; d].join(" ")).collect();
        let st = par::explore(301, |i| srcs[i as usize].clone(), |i, f| judge(srcs[i as usize].parse().unwrap(), f));
        c.inproc("width", "0..=300 times the same", 301, st, a);
    }
}
