//! Acceptance: the macro accepts the documented syntax, and nothing else.
use super::*;
use crate::{
    ctx::Want,
    expand, par,
    real::Prog,
};
use std::sync::atomic::{AtomicU64, Ordering};

use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree as T};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Verdict {
    Accept,
    Reject(&'static str),
    /// Not documented, or for the compiler to decide.
    Open,
}

enum Stop {
    Bad(&'static str),
    Open,
}
type R<X = ()> = Result<X, Stop>;

#[derive(Clone, Copy, PartialEq, Eq)]
enum Parent {
    Root,
    Element,
    Component,
}

#[derive(Default)]
struct Rec {
    bad: Option<&'static str>,
    open: bool,
}

/// What the documentation says about an input.
pub fn recognise(ts: &TokenStream) -> Verdict {
    let t: Vec<T> = ts.clone().into_iter().collect();
    let mut r = Rec::default();
    match r.children(&t, Parent::Root) {
        Err(Stop::Open) => Verdict::Open,
        Err(Stop::Bad(w)) => Verdict::Reject(w),
        Ok(_) => match (r.bad, r.open) {
            (Some(w), _) => Verdict::Reject(w),
            (None, true) => Verdict::Open,
            _ => Verdict::Accept,
        },
    }
}

fn punct(t: Option<&T>, c: char) -> bool { matches!(t, Some(T::Punct(p)) if p.as_char() == c) }
fn joint2(t: &[T], a: char, b: char) -> bool { matches!(t.first(), Some(T::Punct(p)) if p.as_char() == a && p.spacing() == Spacing::Joint) && punct(t.get(1), b) }
fn group(t: Option<&T>, d: Delimiter) -> Option<Vec<T>> {
    match t {
        Some(T::Group(g)) if g.delimiter() == d => Some(g.stream().into_iter().collect()),
        _ => None,
    }
}
fn ident(t: Option<&T>) -> Option<String> {
    match t {
        Some(T::Ident(i)) => Some(i.to_string()),
        _ => None,
    }
}
fn invisible(t: Option<&T>) -> bool { matches!(t, Some(T::Group(g)) if g.delimiter() == Delimiter::None) }
fn is_str(l: &str) -> bool { (l.starts_with('"') || l.starts_with("r\"") || l.starts_with("r#")) && (l.ends_with('"') || l.ends_with('#')) }
fn is_int(l: &str) -> bool { l.starts_with(|c: char| c.is_ascii_digit()) && !l.contains('.') && !(l.contains(['e', 'E']) && !l.starts_with("0x")) }
const ODD: &[&str] = &["_", "self", "Self", "super", "crate", "true", "false"];

impl Rec {
    fn soft(&mut self, w: &'static str) { self.bad.get_or_insert(w); }

    /// A kebab-case name: how many tokens, and what it is.
    fn kebab(&mut self, t: &[T]) -> R<Option<(usize, String)>> {
        let mut n = 0;
        let mut s = String::new();
        if invisible(t.first()) {
            return Err(Stop::Open);
        }
        if let Some(i) = ident(t.first()) {
            s.push_str(i.trim_start_matches("r#"));
        } else if punct(t.first(), '-') {
            s.push('-');
        } else {
            return Ok(None);
        }
        n += 1;
        loop {
            let mut dash = false;
            if punct(t.get(n), '-') {
                s.push('-');
                n += 1;
                dash = true;
            }
            if !dash && s != "-" {
                break;
            }
            match t.get(n) {
                Some(T::Ident(i)) => {
                    let i = i.to_string();
                    if i.starts_with("r#") {
                        self.soft("a raw identifier within a name");
                    }
                    s.push_str(i.trim_start_matches("r#"));
                    n += 1;
                }
                Some(T::Literal(l)) if is_int(&l.to_string()) => {
                    s.push_str(&l.to_string());
                    n += 1;
                }
                Some(T::Group(g)) if g.delimiter() == Delimiter::None => return Err(Stop::Open),
                _ if !dash => break,
                _ => {}
            }
        }
        Ok(Some((n, s)))
    }

    /// A value: how many tokens.
    fn value(&mut self, t: &[T]) -> R<usize> {
        Ok(match t.first() {
            Some(T::Group(g)) => match g.delimiter() {
                Delimiter::Brace | Delimiter::Bracket => 1,
                Delimiter::None => return Err(Stop::Open),
                Delimiter::Parenthesis => 0,
            },
            Some(T::Literal(_)) => 1,
            Some(T::Ident(i)) if group(t.get(1), Delimiter::Bracket).is_some() => {
                if i == "r#f" {
                    return Err(Stop::Open);
                }
                if i != "f" {
                    self.soft("a prefix other than f");
                }
                2
            }
            Some(T::Ident(i)) if i == "true" || i == "false" => 1,
            Some(T::Ident(_)) if invisible(t.get(1)) => return Err(Stop::Open),
            Some(T::Punct(p)) if p.as_char() == '-' => match t.get(1) {
                Some(T::Literal(l)) if l.to_string().starts_with(|c: char| c.is_ascii_digit()) => 2,
                Some(T::Group(g)) if g.delimiter() == Delimiter::None => return Err(Stop::Open),
                _ => 0,
            },
            _ => 0,
        })
    }

    /// Children; whether there are any besides slots.
    fn children(&mut self, mut t: &[T], parent: Parent) -> R<bool> {
        let mut any = false;
        while let Some(first) = t.first() {
            let n = self.value(t)?;
            if n > 0 {
                let lit = match first {
                    T::Literal(l) if is_str(&l.to_string()) => false,
                    T::Literal(l) if l.to_string().contains('"') && l.to_string().starts_with(['"', 'r']) => return Err(Stop::Open),
                    T::Literal(_) | T::Punct(_) => true,
                    T::Ident(_) => n == 1,
                    _ => false,
                };
                if lit {
                    self.soft("a literal child that is not a string");
                }
                t = &t[n..];
                any = true;
            } else if ident(t.first()).as_deref() == Some("slot") && punct(t.get(1), ':') && !joint2(&t[1..], ':', ':') {
                if parent != Parent::Component {
                    self.soft("a slot outside of components");
                }
                t = self.element(&t[2..], true)?;
            } else if matches!(first, T::Ident(_)) || joint2(t, ':', ':') {
                t = self.element(t, false)?;
                any = true;
            } else if invisible(t.first()) {
                return Err(Stop::Open);
            } else {
                return Err(Stop::Bad("a stray token"));
            }
        }
        Ok(any)
    }

    /// An element; what is left.
    fn element<'a>(&mut self, t: &'a [T], slot: bool) -> R<&'a [T]> {
        let component;
        let mut t = t;
        if joint2(t, ':', ':') || t.len() > 1 && (joint2(&t[1..], ':', ':') || punct(t.get(1), '<')) {
            if slot {
                self.soft("a path as slot");
            }
            component = true;
            t = self.path(t)?;
        } else {
            let Some((n, name)) = self.kebab(t)? else { return Err(Stop::Bad("no name")) };
            component = name.starts_with(|c: char| c.is_ascii_uppercase());
            if ODD.contains(&&*name) || name == "-" || component && name.contains('-') {
                self.open = true;
            }
            if slot && !component {
                self.soft("a slot that is no component");
            }
            t = &t[n..];
        }
        // selectors
        while punct(t.first(), '.') || punct(t.first(), '#') {
            match self.kebab(&t[1..])? {
                Some((n, _)) => t = &t[1 + n..],
                None => return Err(Stop::Bad("an empty selector")),
            }
            if slot {
                self.soft("a selector on a slot");
            }
        }
        // attributes
        loop {
            if invisible(t.first()) || t.len() > 1 && invisible(t.get(1)) {
                return Err(Stop::Open);
            }
            if ident(t.first()).is_some() && punct(t.get(1), ':') {
                t = self.directive(t, slot, component)?;
            } else if let Some(inner) = group(t.first(), Delimiter::Brace) {
                if joint2(&inner, '.', '.') {
                    if inner.len() == 2 {
                        self.soft("an empty spread");
                    }
                    if punct(inner.get(2), '.') {
                        return Err(Stop::Open);
                    }
                    if slot {
                        self.soft("a spread on a slot");
                    }
                    t = &t[1..];
                } else {
                    match self.kebab(&inner)? {
                        Some((n, name)) if n == inner.len() => {
                            if ODD.contains(&&*name) || name == "-" {
                                self.open = true;
                            }
                            t = &t[1..];
                        }
                        _ => break,
                    }
                }
            } else if let Some((n, name)) = self.kebab(t)? {
                if ODD.contains(&&*name) || name == "-" {
                    self.open = true;
                }
                t = &t[n..];
                if punct(t.first(), '=') {
                    t = &t[1..];
                    let n = self.value(t)?;
                    if n == 0 {
                        return Err(Stop::Bad("a missing value"));
                    }
                    t = &t[n..];
                }
            } else {
                break;
            }
        }
        // the end
        let parent = if component { Parent::Component } else { Parent::Element };
        let mut args = false;
        if punct(t.first(), ';') {
            return Ok(&t[1..]);
        }
        if t.is_empty() {
            return Err(Stop::Bad("an unterminated element"));
        }
        if punct(t.first(), '|') {
            let Some(n) = t[1..].iter().position(|x| punct(Some(x), '|')) else { return Err(Stop::Bad("unclosed arguments")) };
            t = &t[n + 2..];
            args = true;
            if !component {
                self.soft("arguments on an element");
            }
        }
        let inner = group(t.first(), Delimiter::Brace).or_else(|| group(t.first(), Delimiter::Parenthesis));
        let Some(inner) = inner else {
            return Err(if invisible(t.first()) { Stop::Open } else { Stop::Bad("neither a semicolon nor children") });
        };
        let any = self.children(&inner, parent)?;
        if args && !any {
            self.open = true;
        }
        Ok(&t[1..])
    }

    fn directive<'a>(&mut self, t: &'a [T], slot: bool, component: bool) -> R<&'a [T]> {
        let dir = ident(t.first()).unwrap();
        let mut t = &t[2..];
        let (mut value, mut string) = (false, false);
        if let Some(inner) = group(t.first(), Delimiter::Brace) {
            match self.kebab(&inner)? {
                Some((n, name)) if n == inner.len() => self.open |= ODD.contains(&&*name) || name == "-",
                _ => return Err(Stop::Bad("a directive without a name")),
            }
            value = true;
            t = &t[1..];
        } else if let Some((n, name)) = self.kebab(t)? {
            self.open |= (ODD.contains(&&*name) || name == "-") && !["class", "style", "prop"].contains(&&*dir);
            t = &t[n..];
        } else if matches!(t.first(), Some(T::Literal(l)) if is_str(&l.to_string())) {
            string = true;
            t = &t[1..];
        } else {
            return Err(Stop::Bad("a directive without a name"));
        }
        let mut modifier = None;
        if punct(t.first(), ':') {
            if invisible(t.get(1)) {
                return Err(Stop::Open);
            }
            let Some(m) = ident(t.get(1)) else { return Err(Stop::Bad("an empty modifier")) };
            modifier = Some(m);
            t = &t[2..];
        }
        if !value && punct(t.first(), '=') {
            t = &t[1..];
            let n = self.value(t)?;
            if n == 0 {
                return Err(Stop::Bad("a missing value"));
            }
            value = true;
            t = &t[n..];
        }
        match &*dir {
            "clone" => {
                if !component {
                    self.soft("clone: on an element");
                }
                if value {
                    self.soft("clone: with a value");
                }
                if string {
                    self.soft("a string for an identifier");
                }
            }
            "class" | "style" | "prop" | "on" | "use" | "attr" => {
                if slot {
                    self.soft("a directive on a slot");
                }
                match &*dir {
                    "attr" if !component => self.soft("attr: on an element"),
                    "attr" => self.open |= string,
                    "on" | "use" if string => self.soft("a string for an identifier"),
                    _ => {}
                }
                // for the compiler
                self.open |= !value && dir != "use" && !(component && dir == "class");
            }
            _ => {
                self.open |= dir.starts_with("r#") && ["r#use", "r#on", "r#class", "r#style", "r#prop", "r#attr", "r#clone"].contains(&&*dir);
                if !self.open {
                    self.soft("an unknown directive");
                }
            }
        }
        if let Some(m) = modifier {
            if dir != "on" || m != "undelegated" {
                self.soft("an unknown modifier");
            }
        }
        Ok(t)
    }

    /// A path that names a component.
    fn path<'a>(&mut self, mut t: &'a [T]) -> R<&'a [T]> {
        if joint2(t, ':', ':') {
            t = &t[2..];
        }
        loop {
            match t.first() {
                Some(T::Ident(i)) if !ODD.contains(&&*i.to_string()) && syn::parse_str::<syn::Ident>(&i.to_string()).is_ok() => t = &t[1..],
                Some(T::Ident(_)) => return Err(Stop::Open),
                x if invisible(x) => return Err(Stop::Open),
                _ => return Err(Stop::Bad("an unfinished path")),
            }
            let mut u = t;
            if joint2(t, ':', ':') {
                u = &t[2..];
            }
            if punct(u.first(), '<') {
                // only the plainest generics are for us to judge
                let Some(n) = u.iter().position(|x| punct(Some(x), '>')) else { return Err(Stop::Open) };
                let plain = u[1..n].iter().enumerate().all(|(i, x)| if i % 2 == 0 { matches!(x, T::Ident(i) if !ODD.contains(&&*i.to_string())) } else { punct(Some(x), ',') });
                if !plain || n == 1 {
                    return Err(Stop::Open);
                }
                t = &u[n + 1..];
                if !joint2(t, ':', ':') {
                    return Ok(t);
                }
                t = &t[2..];
                if punct(t.first(), '<') {
                    return Err(Stop::Open);
                }
            } else if u.len() < t.len() {
                t = u;
            } else {
                return Ok(t);
            }
        }
    }
}

static COUNT: [AtomicU64; 3] = [const { AtomicU64::new(0) }; 3];

/// Runs one input; a digest of the outcome.
fn judge(ts: TokenStream, found: &mut Vec<par::Found>) -> u64 {
    let want = recognise(&ts);
    COUNT[match want {
        Verdict::Accept => 0,
        Verdict::Reject(_) => 1,
        Verdict::Open => 2,
    }]
    .fetch_add(1, Ordering::Relaxed);
    let o = expand::expand_ts(ts.clone());
    let rejected = o.aborted || o.diagnostics.iter().any(|d| d.is_error) || o.panicked.is_some() || o.tokens.as_ref().map_or(true, expand::has_compile_error);
    match want {
        Verdict::Accept if rejected => found.push(par::Found {
            key: super::c12::show(&ts),
            what: format!("well-formed, but rejected: {}", o.diagnostics.iter().map(|d| d.message.clone()).collect::<Vec<_>>().join(" / ")),
            want: "accepted".into(),
        }),
        Verdict::Reject(w) if !rejected => found.push(par::Found {
            key: super::c12::show(&ts),
            what: format!("accepted in spite of {w}: {}", o.tokens.as_ref().map(super::c12::show).unwrap_or_default()),
            want: format!("an error because of {w}"),
        }),
        _ => {}
    }
    par::hash(&(format!("{want:?}"), rejected))
}

pub fn explore(c: &mut Ctx, name: &str, bound: &str, atoms: &[&str], max: usize, wraps: &[&str]) {
    super::c12::explore_with(c, name, bound, atoms, max, wraps, judge);
    let [a, r, o] = [0, 1, 2].map(|i: usize| COUNT[i].swap(0, Ordering::Relaxed));
    c.note(format!("{name}: {a} to accept, {r} to reject, {o} open"));
}

pub fn run(c: &mut Ctx) {
    expand::silence_panics();
    let all = super::c12::alphabet();
    explore(c, "all tokens", "all sequences of up to 4 (5) of 41 tokens", &all, c.b(4, 5), &["$"]);
    explore(c, "inside", "all sequences of up to 2 (3) of 41 tokens in 16 places", &all, c.b(2, 3), super::c12::WRAPS);
    // documents from whole constructs
    let parts = ["div", "Card", "br", "slot:Head", "a::B<T>", ".a", "#b", "title=\"x\"", "on:click:undelegated={h}", "class:a={b}", "clone:x", "{x}", "{..s}", "|x|", ";", "{\"k\"}", "(\"k\")", "[v]", "\"s\"", "=", "{ Card; }", "(slot:Body;)"];
    explore(c, "constructs", "all sequences of up to 4 (5) of 22 constructs at the root and in a component", &parts, c.b(4, 5), &["$", "Card { $ }"]);
    let dirs = ["class", "style", "prop", "on", "use", "attr", "clone", "foo", ":a", ":a-b", ":\"s\"", ":{a}", ":undelegated", ":capture", "={v}", "=", "=\"s\"", "=f[v]", "=g[v]", ".c", "x"];
    explore(c, "directives", "all sequences of up to 4 (5) of 21 parts of attributes on an element, a component and a slot", &dirs, c.b(4, 5), &["div $ ;", "Card $ { \"k\" }", "Layout { slot:Head $ ; }"]);
    let few = ["x", "-", ":", "=", ";", "\"s\"", "{x}", "1"];
    explore(c, "few tokens", "all sequences of up to 6 (8) of 8 tokens", &few, c.b(6, 8), &["$"]);
    let ends = ["div", "Card", "slot:Head", "a", "|", "{}", "(\"s\")", ";"];
    explore(c, "ends", "all sequences of up to 6 (8) of 8 tokens in an element and a component", &ends, c.b(6, 8), &["div { $ }", "Card { $ }"]);

    large(c);

    // the compiler sees the same errors at the same places
    let mut progs = vec![];
    let visible: Vec<&str> = all.iter().copied().filter(|a| !a.starts_with('⟪') && *a != "'l" && *a != "$").collect();
    let mut inputs: Vec<String> = vec![];
    for n in 0..=2 {
        for s in seqs(visible.len(), n) {
            inputs.push(s.iter().map(|&i| visible[i]).collect::<Vec<_>>().join(" "));
        }
    }
    for w in ["div $ ;", "Card $ { \"k\" }", "Layout { slot:Head $ ; }"] {
        for n in 1..=c.b(2, 3) {
            for s in seqs(dirs.len(), n) {
                inputs.push(w.replace('$', &s.iter().map(|&i| dirs[i]).collect::<Vec<_>>().join(" ")));
            }
        }
    }
    for input in inputs {
        let code = format!("html(mview! {{ {input} }})");
        let off = "html(mview! { ".len();
        let e = expand::expand(&input);
        let mut want: Vec<(String, Option<(usize, usize)>)> = vec![];
        for d in &e.diags {
            want.push((d.msg.clone(), d.at.map(|((_, a), (_, b))| (a + off, b + off))));
        }
        let rejected = !e.accepted();
        if !rejected {
            continue;
        }
        let desc = format!("{want:?}");
        let ascii = input.is_ascii();
        progs.push((
            Prog { items: String::new(), code },
            Want::Errors(desc, std::rc::Rc::new(move |ds| {
                for (m, at) in &want {
                    if m == "compile_error!" || !ascii {
                        continue;
                    }
                    if !ds.iter().any(|d| d.msg.split('\n').next() == m.split('\n').next() && (at.is_none() || d.primary.iter().any(|p| p == at))) {
                        return Some(format!("the compiler does not show {m:?} at {at:?}, but {}", ds.iter().map(|d| format!("{:?} at {:?}", d.msg, d.primary)).collect::<Vec<_>>().join(", ")));
                    }
                }
                None
            })),
        ));
    }
    c.progs("binding", "every rejected sequence of up to 2 tokens, and of up to 2 (3) parts of attributes in 3 places, with messages and places compared to rustc's", progs);
}

/// What can be repeated, with `$` as the place of the repetitions.
const REPEATED: &[(&[&str], &str)] = &[
    (&["$", "div { $ }", "div.c #i title={v} ( $ )", "Card { $ }", "Card |x| ( $ )", "Layout { slot:Head { $ } }", "my-el { $ }", "a::B<T> { $ }"], "br; §\"s\" §{x} §[x] §f[\"{}\", x] §div { \"k\" } §div { } §div.c #i title={v}; §Card; §Card { \"k\" } §Card |i| { {i} } §Card clone:x { {x} } §my-el; §my-el ( \"k\" ) §a::B<T>; §\"\" §a-b.c-d; §Layout { slot:Head { \"k\" } } §br; \"s\" {x} Card; [y]"),
    (&["Card { $ }", "Layout ( $ )", "div { Layout { $ } }", "a::B<T> |x| { $ }"], "slot:Head; §slot:Head { \"k\" } §slot:Head a={1} |x| ( \"k\" ) §slot:Head; slot:Body { \"k\" } §slot:Head; \"k\" slot:Body { br; } {x}"),
    (&["div $;", "div $ { \"k\" }", "my-el $;", "Card $;", "Card $ |x| { \"k\" }", "a::B<T> $ ( \"k\" )"], "title=\"x\" §a={v} §a=[v] §a=f[\"{}\", v] §data-x=1 §aria-label §flag §{short} §{data-x} §{..s} §class:a={b} §class:\"a b\"={b} §class:{a} §style:a-b=\"c\" §style:\"--a\"=[b] §prop:a={b} §prop:{a} §on:click={h} §on:click:undelegated={h} §on:my-event={h} §on:{click} §use:d §use:d={1} §class={v} §style=\"x\" §ref={r} §a={v} flag {b} class:a={b} on:click={h} {..s}"),
    (&["Card $;", "Card $ { \"k\" }", "Card.c $ |x| { \"k\" }"], "attr:title=\"x\" §attr:data-x={v} §clone:x §class:a §clone:x a={1} {b}"),
    (&["Layout { slot:Head $; }", "Layout { slot:Head $ { \"k\" } }"], "a={1} §a §{a} §a-b=\"x\" §clone:x"),
    (&["div$;", "div$ { \"k\" }", "Card$;", "Card$ a={1} |x| { \"k\" }", "my-el$ title={v};"], ".a §.a-b §#a §#a-b-1 §.a #b §.a .b-c"),
    (&["Card |$| { \"k\" }", "Layout { slot:Head |$| ( \"k\" ) }"], "x, §(a, b), §_, §x, y,"),
    (&["div title={$};", "div title=f[\"{}\", $];", "{$}", "[$] br;", "Card a=[$] { \"k\" }", "Card |$| { \"k\" }", "div {..$};"], "x §x + §x, §; §\"s\" §[x] §(y) §{ z; } §= §- §: §'l §!"),
    (&["a::$B;", "$B { \"k\" }", "::$B<T> a={1};", "Card { $B; }"], "a:: §b::c::"),
    (&["A<T$>;", "a::A<T$> { \"k\" }", "A::<T$> |x| { \"k\" }"], ", T §, T, U"),
    (&["a$;", "a$ { \"k\" }", "div a$=\"x\";", "div a$;", "div {a$};", "div class:a$={b};", "div style:a$=\"b\";", "div on:a$={h};", "div.a$;", "div #a$;", "Card a$={1};", "Card attr:a$={b};", "Layout { slot:Head a$=1; }"], "-a §-1 §-a-1 §- §-a-"),
];

/// The same with more and more parts, and with a mistake among them.
fn large(c: &mut Ctx) {
    let max = c.b(48, 130);
    let more: &[usize] = c.b(&[63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 1000], &[131, 180, 200, 254, 255, 256, 257, 300, 500, 511, 512, 513, 700, 1000, 1024, 1025, 2000]);
    let ns: Vec<usize> = (0..=max).chain(more.iter().copied()).collect();
    let mut v: Vec<(&str, &str, usize)> = vec![];
    for (places, units) in REPEATED {
        for p in *places {
            for u in units.split('§') {
                for &n in &ns {
                    v.push((p, u.trim_end_matches(' '), n));
                }
            }
        }
    }
    let sep = |p: &str| if p.contains("a$") { "" } else { " " };
    let text = |i: u64| {
        let (p, u, n) = v[i as usize];
        let dots = if u.starts_with(['.', '#']) && !u.contains(' ') { "" } else { sep(p) };
        p.replace('$', &vec![u; n].join(dots))
    };
    let parse = |s: String| -> TokenStream { s.parse().unwrap_or_else(|e| panic!("{s}: {e}")) };
    let st = par::explore(v.len() as u64, text, |i, f| {
        let h = judge(parse(text(i)), f);
        expand::tick();
        h
    });
    c.inproc("large", "everything that can be repeated, 0..=48 (130) and up to 1000 (2000) times", v.len() as u64, st, &text(v.len() as u64 / 2).chars().take(200).collect::<String>());
    let [a, r, o] = [0, 1, 2].map(|i: usize| COUNT[i].swap(0, Ordering::Relaxed));
    c.note(format!("large: {a} to accept, {r} to reject, {o} open"));

    // what is wrong among them stays wrong
    let wrong: &[&[&str]] = &[
        &["1", ";", ",", "div |x| { }", "g[x]", "true", "Card |x|;", "= x", "slot:head;", "A::"],
        &["slot:head;", "slot:Head.a;", "slot:Head class:a={b};", "slot:a::Head;", "1"],
        &["foo:a={1}", "on:click:capture={h}", "a=g[x]", "a=", "1", "\"s\"", "[x]", "on:\"click\"={h}", "{..}", "class:a:b={c}", "_={1}"],
        &["clone:x={1}", "clone:\"x\"", "foo:a", "a=g[x]", "clone:{x}"],
        &["class:a={b}", "on:click={h}", "{..s}", "clone:x={1}", "a=g[x]"],
        &["1", ",", "\"s\""],
    ];
    let mut v: Vec<(&str, &str, &str, usize, usize)> = vec![];
    for ((places, units), wrong) in REPEATED.iter().zip(wrong) {
        for p in *places {
            for u in units.split('§') {
                for w in *wrong {
                    for n in [1, 2, 3, 5, 8, 9, 10, 11, 12, 13, 16, 17, 20, 25, 26, 27, 32, 33, 64, 65, 100, 128, 200, 256, 300].into_iter().step_by(c.b(2, 1)) {
                        for at in [0, n / 2, n] {
                            v.push((p, u.trim_end_matches(' '), w, n, at));
                        }
                    }
                }
            }
        }
    }
    let text = |i: u64| {
        let (p, u, w, n, at) = v[i as usize];
        let mut parts = vec![u; n];
        parts.insert(at, w);
        p.replace('$', &format!(" {} ", parts.join(" ")))
    };
    let st = par::explore(v.len() as u64, text, |i, f| {
        let h = judge(parse(text(i)), f);
        expand::tick();
        h
    });
    c.inproc("large, with a mistake", "the same up to 300 times, with one of up to 11 mistakes before, among and after them", v.len() as u64, st, &text(v.len() as u64 / 2).chars().take(200).collect::<String>());
    let [a, r, o] = [0, 1, 2].map(|i: usize| COUNT[i].swap(0, Ordering::Relaxed));
    c.note(format!("large, with a mistake: {a} to accept, {r} to reject, {o} open"));

    // nesting
    let max = c.b(100, 160);
    let mut v: Vec<(&str, &str, usize)> = vec![];
    for w in ["div { $ }", "div.a title={v} ( $ \"z\" )", "Card { $ }", "Card |x| ( $ )", "Card clone:x { br; $ }", "Layout { slot:Head { $ } }", "Layout { slot:Head; slot:Body |x| { $ } {y} }", "my-el { {x} $ }", "a::B<T> { div { $ } }"] {
        for x in ["", "\"s\"", "br;", "{x}", "f[\"{}\", x] Card;", "1", "div", "foo bar", "slot:Head;", "Card foo:a={1};", "div |x| { }"] {
            for n in 0..=max {
                v.push((w, x, n));
            }
        }
    }
    let text = |i: u64| {
        let (w, x, n) = v[i as usize];
        let (a, b) = w.split_once('$').unwrap();
        format!("{}{x}{}", a.repeat(n), b.repeat(n))
    };
    let st = par::explore(v.len() as u64, text, |i, f| {
        let h = judge(parse(text(i)), f);
        expand::tick();
        h
    });
    c.inproc("deep", "0..=100 (160) levels of 9 kinds, with 11 kinds of contents, some with mistakes", v.len() as u64, st, &text(v.len() as u64 / 7).chars().take(200).collect::<String>());
    let [a, r, o] = [0, 1, 2].map(|i: usize| COUNT[i].swap(0, Ordering::Relaxed));
    c.note(format!("deep: {a} to accept, {r} to reject, {o} open"));
}
