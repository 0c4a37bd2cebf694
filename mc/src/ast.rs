//! A small syntax tree of mview documents, how to write one as macro input, and
//! what it means (the reference model).
use std::collections::BTreeMap;

use crate::html::{add_style, canon, Dom, El};

/// A runtime value.
#[derive(Clone, Debug, PartialEq)]
pub enum Rv {
    Str(String),
    /// An owned `String`.
    Owned(String),
    /// Rendered form, Debug form with type (as a DOM property shows it).
    Num(String, String),
    Bool(bool),
    /// Event handler or directive function.
    Fun(String),
    /// `None`, or `()`.
    Nothing,
    /// Looked up among the bindings of children arguments.
    Var(String),
    /// An element as a value: what it renders to.
    View(Vec<Dom>),
}

impl Rv {
    pub fn s(x: &str) -> Self { Rv::Str(x.into()) }
    pub fn i(x: i64) -> Self { Rv::Num(x.to_string(), format!("{x}:i32")) }
    pub fn text(&self, env: &Env) -> String {
        match self {
            Rv::Str(s) | Rv::Owned(s) | Rv::Num(s, _) => s.clone(),
            Rv::Bool(b) => b.to_string(),
            Rv::Var(v) => env.get(v).unwrap_or_else(|| panic!("unbound {v}")).text(env),
            Rv::Nothing => String::new(),
            Rv::Fun(f) => f.clone(),
            Rv::View(_) => String::new(),
        }
    }
    /// As a DOM property shows.
    pub fn show(&self) -> String {
        match self {
            Rv::Str(s) => format!("{s:?}:&str"),
            Rv::Owned(s) => format!("{s:?}:String"),
            Rv::Num(_, d) => d.clone(),
            Rv::Bool(b) => format!("{b}:bool"),
            o => format!("{o:?}"),
        }
    }
}

pub type Env = BTreeMap<String, Rv>;

#[derive(Clone, Debug, PartialEq)]
pub struct Val {
    pub src: String,
    pub rv: Rv,
    /// A closure that yields the value.
    pub lazy: bool,
}

pub fn lit(src: &str, rv: Rv) -> Val { Val { src: src.into(), rv, lazy: false } }
pub fn str_lit(s: &str) -> Val { Val { src: format!("{s:?}"), rv: Rv::s(s), lazy: false } }
pub fn block(e: &str, rv: Rv) -> Val { Val { src: format!("{{{e}}}"), rv, lazy: false } }
/// A block holding a closure.
pub fn blockfn(e: &str, rv: Rv) -> Val { Val { src: format!("{{{e}}}"), rv, lazy: true } }
pub fn bracket(e: &str, rv: Rv) -> Val { Val { src: format!("[{e}]"), rv, lazy: true } }
pub fn fmt(args: &str, text: &str) -> Val { Val { src: format!("f[{args}]"), rv: Rv::Owned(text.into()), lazy: true } }

#[derive(Clone, Debug, PartialEq)]
pub enum Key {
    Id(String),
    Str(String),
}
impl Key {
    /// The name it means.
    pub fn name(&self) -> String {
        match self {
            Key::Id(s) => unraw(s),
            Key::Str(s) => s.clone(),
        }
    }
    pub fn src(&self) -> String {
        match self {
            Key::Id(s) => s.clone(),
            Key::Str(s) => format!("{s:?}"),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum At {
    /// `key=value`
    Kv(String, Val),
    /// `key`
    Flag(String),
    /// `{key}`
    Short(String, Rv),
    /// `dir:key:modifier=value`
    Dir { dir: String, key: Key, modi: Option<String>, val: Option<Val> },
    /// `dir:{key}:modifier`; `lazy`
    DirShort { dir: String, key: String, modi: Option<String>, rv: Rv, lazy: bool },
    /// `{..expr}`
    Spread(String, Vec<Eff>),
}

/// An effect on an element.
#[derive(Clone, Debug, PartialEq)]
pub enum Eff {
    Attr(String, Rv),
    Classes(Rv),
    Styles(Rv),
    Class(String, Rv),
    Style(String, Rv),
    Extra(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Sel {
    Class(String),
    Id(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Html,
    Svg,
    Math,
    Web,
    Comp,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tag {
    pub kind: Kind,
    /// As written.
    pub src: String,
    /// The rendered tag, or the name of the component model.
    pub name: String,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Delim {
    Brace,
    Paren,
}

/// `|pattern|` and the names it binds, in order of the values handed over.
#[derive(Clone, Debug, PartialEq)]
pub struct Args {
    pub src: String,
    pub binds: Vec<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Elem {
    pub tag: Tag,
    pub sels: Vec<Sel>,
    pub attrs: Vec<At>,
    pub args: Option<Args>,
    /// `None`: ends with `;`
    pub kids: Option<(Delim, Vec<Child>)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Child {
    Val(Val),
    El(Elem),
    Slot(Elem),
}

pub fn tag(kind: Kind, src: &str) -> Tag { Tag { kind, src: src.into(), name: src.into() } }
pub fn html(src: &str) -> Tag { tag(Kind::Html, src) }
pub fn comp(src: &str) -> Tag { tag(Kind::Comp, src) }
pub fn el(tag: Tag) -> Elem { Elem { tag, sels: vec![], attrs: vec![], args: None, kids: None } }
impl Elem {
    pub fn kids(mut self, k: Vec<Child>) -> Self {
        self.kids = Some((Delim::Brace, k));
        self
    }
    pub fn pkids(mut self, k: Vec<Child>) -> Self {
        self.kids = Some((Delim::Paren, k));
        self
    }
    pub fn at(mut self, a: At) -> Self {
        self.attrs.push(a);
        self
    }
    pub fn ats(mut self, a: Vec<At>) -> Self {
        self.attrs.extend(a);
        self
    }
    pub fn sel(mut self, s: Sel) -> Self {
        self.sels.push(s);
        self
    }
    pub fn args(mut self, src: &str, binds: &[&str]) -> Self {
        self.args = Some(Args { src: src.into(), binds: binds.iter().map(|s| s.to_string()).collect() });
        self
    }
    pub fn c(self) -> Child { Child::El(self) }
    pub fn slot(self) -> Child { Child::Slot(self) }
}
pub fn txt(s: &str) -> Child { Child::Val(str_lit(s)) }

// ------------------------------------------------------------------ source //

pub fn at_src(a: &At) -> String {
    match a {
        At::Kv(k, v) => format!("{k}={}", v.src),
        At::Flag(k) => k.clone(),
        At::Short(k, _) => format!("{{{k}}}"),
        At::Dir { dir, key, modi, val } => format!(
            "{dir}:{}{}{}",
            key.src(),
            modi.as_ref().map_or(String::new(), |m| format!(":{m}")),
            val.as_ref().map_or(String::new(), |v| format!("={}", v.src))
        ),
        At::DirShort { dir, key, modi, .. } => {
            format!("{dir}:{{{key}}}{}", modi.as_ref().map_or(String::new(), |m| format!(":{m}")))
        }
        At::Spread(e, _) => format!("{{..{e}}}"),
    }
}

pub fn el_src(e: &Elem) -> String {
    let mut s = e.tag.src.clone();
    for x in &e.sels {
        match x {
            // `1.` would be a number
            Sel::Class(c) if s.rsplit(['-', '.']).next().is_some_and(|l| l.starts_with(|c: char| c.is_ascii_digit())) => s.push_str(&format!(" .{c}")),
            Sel::Class(c) => s.push_str(&format!(".{c}")),
            Sel::Id(i) => s.push_str(&format!(" #{i}")),
        }
    }
    for a in &e.attrs {
        s.push(' ');
        s.push_str(&at_src(a));
    }
    if let Some(a) = &e.args {
        s.push(' ');
        s.push_str(&a.src);
    }
    match &e.kids {
        None => s.push(';'),
        Some((d, k)) => {
            let (o, c) = if *d == Delim::Brace { ("{", "}") } else { ("(", ")") };
            s.push_str(&format!(" {o} {} {c}", src(k)));
        }
    }
    s
}

pub fn child_src(c: &Child) -> String {
    match c {
        Child::Val(v) => v.src.clone(),
        Child::El(e) => el_src(e),
        Child::Slot(e) => format!("slot:{}", el_src(e)),
    }
}

pub fn src(k: &[Child]) -> String { k.iter().map(child_src).collect::<Vec<_>>().join(" ") }

// ------------------------------------------------------------------- model //

/// Kebab-case to an identifier.
pub fn snake(k: &str) -> String { unraw(k).replace('-', "_") }
/// The name that an identifier means: kebab-case may be written with spaces.
pub fn unraw(k: &str) -> String { k.replace("r#", "").replace(' ', "") }

/// The attribute that a key stands for on an element.
pub fn attr_name(kind: Kind, key: &str) -> String {
    let key = unraw(key);
    if matches!(kind, Kind::Svg | Kind::Web) || (key.contains('-') && !key.starts_with("aria-")) {
        return key;
    }
    let k = key.replace('-', "_");
    crate::tables::ATTRS.iter().find(|a| a.0 == k).map_or(key, |a| a.1.to_string())
}

/// What an attribute does to an element.
pub fn effects(kind: Kind, a: &At, env: &Env) -> Vec<Eff> {
    let res = |r: &Rv| match r {
        Rv::Var(v) => env[v].clone(),
        r => r.clone(),
    };
    let prop = |k: &str, rv: &Rv, lazy: bool| Eff::Extra(format!("prop:{}={}{}", k, if lazy { "fn|" } else { "" }, res(rv).show()));
    let plain = |k: &str, rv: &Rv| match unraw(k).as_str() {
        "class" => Eff::Classes(res(rv)),
        "style" => Eff::Styles(res(rv)),
        "ref" | "node_ref" => Eff::Extra(format!("ref={}", rv.text(env))),
        k => Eff::Attr(attr_name(kind, k), res(rv)),
    };
    let dir = |d: &str, key: &str, modi: &Option<String>, val: Option<(&Rv, bool)>| -> Vec<Eff> {
        let yes = Rv::Bool(true);
        let (rv, lazy) = val.unwrap_or((&yes, false));
        let m = modi.as_ref().map_or(String::new(), |m| format!(":{m}"));
        let key = key.to_string();
        vec![match d {
            "class" => Eff::Class(key, res(rv)),
            "style" => Eff::Style(key, res(rv)),
            "prop" => prop(&key, rv, lazy),
            "attr" => plain(&key, rv),
            "on" => Eff::Extra(format!("on:{key}{m}={}", rv.text(env))),
            "use" => Eff::Extra(format!("use:{key}={}", val.map_or("():()".to_string(), |v| use_param(&key, v.0)))),
            "clone" => return vec![],
            d => panic!("model has no directive {d}"),
        }]
    };
    match a {
        At::Kv(k, v) => vec![plain(k, &v.rv)],
        At::Flag(k) => vec![plain(k, &Rv::Bool(true))],
        At::Short(k, rv) => vec![plain(k, rv)],
        At::Dir { dir: d, key, modi, val } => dir(d, &key.name(), modi, val.as_ref().map(|v| (&v.rv, v.lazy))),
        At::DirShort { dir: d, key, modi, rv, lazy } => dir(d, &unraw(key), modi, Some((rv, *lazy))),
        At::Spread(_, e) => e.clone(),
    }
}

/// `use:` calls `.into()` on the parameter, to the type that the directive takes.
fn use_param(f: &str, rv: &Rv) -> String {
    match f {
        "d4" | "d5" => rv.text(&Env::new()),
        "d3" | "d-3" => format!("DP({:?})", rv.text(&Env::new())),
        _ => rv.show(),
    }
}

pub fn apply(e: &mut El, effs: &[Eff]) {
    for f in effs {
        match f {
            Eff::Attr(k, rv) => match rv {
                Rv::Bool(true) => e.attrs.push((k.clone(), None)),
                Rv::Bool(false) | Rv::Nothing => {}
                rv => e.attrs.push((k.clone(), Some(rv.text(&Env::new())))),
            },
            Eff::Classes(rv) => e.classes.extend(rv.text(&Env::new()).split_whitespace().map(str::to_string)),
            Eff::Styles(rv) => add_style(&mut e.styles, &rv.text(&Env::new())),
            Eff::Class(k, rv) => {
                if *rv == Rv::Bool(true) {
                    e.classes.insert(k.clone());
                }
            }
            Eff::Style(k, rv) => {
                if *rv != Rv::Nothing {
                    e.styles.entry(k.clone()).or_default().push(rv.text(&Env::new()));
                }
            }
            Eff::Extra(x) => e.extra.push(x.clone()),
        }
    }
}

fn sel_effects(sels: &[Sel]) -> Vec<Eff> {
    let mut out = vec![];
    let mut ids = vec![];
    for s in sels {
        match s {
            Sel::Class(c) => out.push(Eff::Class(unraw(c), Rv::Bool(true))),
            Sel::Id(i) => ids.push(unraw(i)),
        }
    }
    if !ids.is_empty() {
        out.push(Eff::Attr("id".into(), Rv::s(&ids.join(" "))));
    }
    out
}

/// The children of a component or slot, ready to be rendered any number of times.
pub struct Kids<'a> {
    nodes: Vec<&'a Child>,
    args: Option<&'a Args>,
    env: Env,
}
impl Kids<'_> {
    pub fn render(&self, vals: &[Rv]) -> Vec<Dom> {
        let mut env = self.env.clone();
        if let Some(a) = self.args {
            for (b, v) in a.binds.iter().zip(vals) {
                env.insert(b.clone(), v.clone());
            }
        }
        self.nodes.iter().flat_map(|c| child(c, &env)).collect()
    }
}

/// What a component or slot is called with.
pub struct Call<'a> {
    pub props: BTreeMap<String, Rv>,
    pub kids: Option<Kids<'a>>,
    pub slots: BTreeMap<String, Vec<Call<'a>>>,
}

fn call<'a>(e: &'a Elem, env: &Env) -> Call<'a> {
    let mut props = BTreeMap::new();
    for a in &e.attrs {
        match a {
            At::Kv(k, v) => {
                props.insert(snake(k), if let Rv::Var(x) = &v.rv { env[x].clone() } else { v.rv.clone() });
            }
            At::Flag(k) => {
                props.insert(snake(k), Rv::Bool(true));
            }
            At::Short(k, rv) => {
                props.insert(snake(k), rv.clone());
            }
            _ => {}
        }
    }
    let mut kids = None;
    let mut slots: BTreeMap<String, Vec<Call>> = BTreeMap::new();
    if let Some((_, k)) = &e.kids {
        let nodes: Vec<_> = k.iter().filter(|c| !matches!(c, Child::Slot(_))).collect();
        if !nodes.is_empty() {
            kids = Some(Kids { nodes, args: e.args.as_ref(), env: env.clone() });
        }
        for c in k {
            if let Child::Slot(s) = c {
                slots.entry(s.tag.name.clone()).or_default().push(call(s, env));
            }
        }
    }
    Call { props, kids, slots }
}

fn h(tag: &str, attrs: &[(&str, &str)], kids: Vec<Dom>) -> Dom {
    Dom::El(Box::new(El {
        tag: tag.into(),
        attrs: attrs.iter().map(|(k, v)| (k.to_string(), Some(v.to_string()))).collect(),
        kids,
        ..El::default()
    }))
}

fn rk(k: &Option<Kids>, vals: &[Rv]) -> Vec<Dom> { k.as_ref().map_or(vec![], |k| k.render(vals)) }

/// The reference model of the components in `rt/base`.
fn component(name: &str, c: Call) -> Vec<Dom> {
    let env = Env::new();
    let p = |n: &str, d: &str| c.props.get(n).map_or(d.to_string(), |v| v.text(&env));
    match name {
        "Leaf" => {
            let mut e = El { tag: "hr".into(), ..El::default() };
            e.classes.insert("leaf".into());
            vec![Dom::El(Box::new(e))]
        }
        "Card" => vec![h("section", &[], rk(&c.kids, &[]))],
        "Opt" => vec![h("aside", &[("data-has", if c.kids.is_some() { "true" } else { "false" })], rk(&c.kids, &[]))],
        "Bare" => rk(&c.kids, &[]),
        "Never" => vec![h("q", &[], vec![])],
        "Lazy" => vec![h("q", &[], rk(&c.kids, &[]))],
        "Twice" => vec![h("b", &[], rk(&c.kids, &[])), Dom::Text(String::new()), h("i", &[], rk(&c.kids, &[]))],
        "Props" => {
            let d = c.props.get("d").map_or("None".to_string(), |v| format!("Some({:?})", v.text(&env)));
            let s = format!(
                "a={} b={} c={} d={d} l={} x={} t={} cl={} id={} st={} rf={} ch={} fl={} sg={}",
                p("a", "0"), p("b", ""), p("c", "false"), p("the_long_name", "0"), p("x_1", "0"), p("type", "0"), p("class", ""), p("id", ""), p("style", ""), p("ref", ""), p("ch", "z"), p("fl", "0.5"), p("sig", "0")
            );
            vec![h("p", &[("data-props", &s)], rk(&c.kids, &[]))]
        }
        "Calls" => {
            let f = p("f", "");
            vec![Dom::Text(format!("[{f}{f}]"))]
        }
        "Each" => {
            let n: i64 = p("n", "2").parse().unwrap();
            vec![h("ul", &[], (1..=n).flat_map(|i| rk(&c.kids, &[Rv::i(i)])).collect())]
        }
        "Pair" | "Two" => vec![h(
            if name == "Pair" { "ol" } else { "dl" },
            &[],
            [(1, "x"), (2, "y")].iter().flat_map(|(i, s)| rk(&c.kids, &[Rv::i(*i), Rv::s(s)])).collect(),
        )],
        "Points" => vec![h("dl", &[], rk(&c.kids, &[Rv::i(1), Rv::i(2)]))],
        "Nullary" => vec![h("menu", &[], [rk(&c.kids, &[]), rk(&c.kids, &[])].concat())],
        "Arr" => vec![h("menu", &[], rk(&c.kids, &[Rv::i(3), Rv::i(4)]))],
        "Nested" => vec![h("menu", &[], rk(&c.kids, &[Rv::i(5), Rv::i(6), Rv::i(7), Rv::i(8), Rv::i(9)]))],
        "RefTo" => vec![h("menu", &[], rk(&c.kids, &[Rv::i(3)]))],
        "Res" => vec![h("menu", &[], [rk(&c.kids, &[Rv::i(1)]), rk(&c.kids, &[Rv::i(2)])].concat())],
        "Layout" => {
            let mut k = vec![];
            if let Some(n) = c.props.get("n") {
                if n.text(&env) != "0" {
                    k.push(h("var", &[], vec![Dom::Text(n.text(&env))]));
                }
            }
            let t = |s: &Call, n: &str, d: &str| s.props.get(n).map_or(d.to_string(), |v| v.text(&env));
            let one = |n: &str| c.slots.get(n).map(|v| &v[0]);
            let head = |s: &Call| h("header", &[("title", &t(s, "label", ""))], rk(&s.kids, &[]));
            if let Some(s) = one("Head") {
                k.push(head(s));
            }
            for s in c.slots.get("Item").map_or(&[][..], |v| v) {
                k.push(h("li", &[("value", &t(s, "n", "0"))], rk(&s.kids, &[])));
            }
            if let Some(s) = one("TwoWords") {
                k.push(h("em", &[], [rk(&s.kids, &[]), rk(&s.kids, &[])].concat()));
            }
            if let Some(s) = one("ABTest") {
                k.push(h("s", &[("title", &t(s, "the_name", ""))], rk(&s.kids, &[])));
            }
            if let Some(s) = one("Outer") {
                let mut kk = vec![];
                for i in s.slots.get("Inner").map_or(&[][..], |v| v) {
                    kk.push(h("u", &[("title", &t(i, "label", ""))], rk(&i.kids, &[])));
                }
                if let Some(hd) = s.slots.get("Head") {
                    kk.push(head(&hd[0]));
                }
                kk.extend(rk(&s.kids, &[]));
                k.push(h("div", &[("title", "outer")], kk));
            }
            if let Some(s) = one("Row") {
                k.push(h("tr", &[], [rk(&s.kids, &[Rv::i(1)]), rk(&s.kids, &[Rv::i(2)])].concat()));
            }
            if let Some(s) = one("Type") {
                k.push(h("kbd", &[], rk(&s.kids, &[])));
            }
            if c.kids.is_some() {
                k.push(h("article", &[], rk(&c.kids, &[])));
            }
            vec![h("main", &[], k)]
        }
        "Slug" => vec![h("q", &[], vec![Dom::Text("slug".into())])],
        n if n.starts_with("GenB:") => vec![h("samp", &[], vec![Dom::Text(n[5..].to_string())])],
        n if n.starts_with("Gen2:") => vec![h("code", &[], vec![Dom::Text(n[5..].to_string())])],
        n if n.starts_with("Gen:") => {
            let mut k = vec![Dom::Text(n[4..].to_string())];
            k.extend(rk(&c.kids, &[]));
            vec![h("code", &[], k)]
        }
        n => panic!("no model of {n}"),
    }
}

pub fn child(c: &Child, env: &Env) -> Vec<Dom> {
    match c {
        Child::Val(v) => match &v.rv {
            Rv::View(d) => d.clone(),
            // leptos renders an empty text as a space, so that there is a text node
            rv @ (Rv::Str(_) | Rv::Owned(_)) if rv.text(env).is_empty() => vec![Dom::Text(" ".into())],
            rv => vec![Dom::Text(rv.text(env))],
        },
        Child::El(e) => elem(e, env),
        Child::Slot(_) => panic!("the model has no slots outside of components"),
    }
}

pub fn elem(e: &Elem, env: &Env) -> Vec<Dom> {
    if e.tag.kind == Kind::Comp {
        let name = if e.tag.name.contains(':') && !e.tag.name.starts_with("Gen") { e.tag.name.rsplit("::").next().unwrap() } else { &e.tag.name };
        let mut doms = component(name, call(e, env));
        let mut effs: Vec<Eff> = vec![];
        for a in &e.attrs {
            match a {
                At::Dir { .. } | At::DirShort { .. } | At::Spread(..) => effs.extend(effects(Kind::Html, a, env)),
                _ => {}
            }
        }
        effs.extend(sel_effects(&e.sels));
        for d in &mut doms {
            if let Dom::El(x) = d {
                apply(x, &effs);
            }
        }
        return doms;
    }
    let mut x = El {
        tag: unraw(&e.tag.name),
        ns: match e.tag.kind {
            Kind::Svg => "svg".into(),
            Kind::Math => "math".into(),
            _ => String::new(),
        },
        ..El::default()
    };
    // a later declaration wins: `style=` before `style:`
    let (mut first, mut later) = (vec![], vec![]);
    for a in &e.attrs {
        match a {
            At::Kv(..) | At::Flag(_) | At::Short(..) => first.extend(effects(e.tag.kind, a, env)),
            _ => later.extend(effects(e.tag.kind, a, env)),
        }
    }
    apply(&mut x, &first);
    apply(&mut x, &later);
    apply(&mut x, &sel_effects(&e.sels));
    x.kids = e.kids.as_ref().map_or(vec![], |(_, k)| k.iter().flat_map(|c| child(c, env)).collect());
    vec![Dom::El(Box::new(x))]
}

/// What a whole document renders to.
pub fn model(k: &[Child]) -> Vec<Dom> { canon(k.iter().flat_map(|c| child(c, &Env::new())).collect()) }

/// Number of constructs in a document.
pub fn size(k: &[Child]) -> usize {
    k.iter()
        .map(|c| match c {
            Child::Val(_) => 1,
            Child::El(e) | Child::Slot(e) => {
                1 + e.sels.len() + e.attrs.len() + e.args.is_some() as usize + e.kids.as_ref().map_or(0, |(_, k)| size(k))
            }
        })
        .sum()
}
