//! Scopes, fragments of other macros, and places of invocation.
use super::*;
use crate::{ctx::Want, html as dom, real::Prog};
use std::rc::Rc;

/// Documents that make use of everything, and what they need.
pub const DOCS: &[(&str, &str)] = &[
    ("", "div.a-b #c .d title=\"x\" class=\"k\" class:e=true style:left=\"1\" style=\"top:2\" hidden lang=[\"l\"] data-q=f[\"{}\", 1] inner_html=\"h\";"),
    ("", "input on:click={h1} on:input:undelegated={h1} prop:value=1 use:d1 use:d2=3 use:d3=\"p\" ref={nref(\"r\")};"),
    ("", "circle.a #b cx=1; math { mi.b { \"x\" } mn dir=\"y\"; } my-el.z data-x=\"y\" on:click={h1} { p(\"x\") }"),
    ("", "Leaf.a #b class:c style:left=\"1\" attr:title=\"t\" attr:data-z=\"u\" attr:class=\"v\" attr:style=\"top:1\" attr:hidden prop:p=1 on:click={h1} on:input:undelegated={h1} use:d1 use:d2=3 {..::leptos::tachys::html::attribute::lang(\"l\")};"),
    ("", "Card { \"k\" [1] f[\"{}\", 2] {3} } Each |i| { {i} } Gen<i32>; ::mvbase::Opt { br; } Opt; Opt { } Props a=1 c the-long-name=2 b=\"x\";"),
    ("", "Layout { slot:Item n=1 { \"k\" } slot:Item; slot:Head label=\"h\" { \"h\" } \"rest\" slot:Outer { slot:Inner; slot:Inner { \"i\" } } }"),
    ("let cl = Cl::new(\"c\"); let w = 1;", "Each clone:cl |i| { {cl.get()} {i} } Twice clone:cl { {cl.get()} } div { {w} {cl.get()} }"),
];

/// Names that the expansion could mean, and names that are all over std and leptos.
const NAMES: &[&str] = &[
    "leptos", "std", "core", "alloc", "leptos_mview", "tachys", "prelude", "component", "View", "Box", "Vec", "Option", "Some", "None", "Ok", "Err", "Result", "String", "Into", "From", "Clone", "Fn", "Default", "ToString", "IntoView", "ToChildren", "Children", "IntoAttributeValue", "component_view", "component_props_builder", "ToProps", "into", "into_vec", "into_attribute_value", "to_children", "children", "child", "new", "build", "builder", "add_any_attr", "class", "style", "id", "on", "prop", "directive", "attr", "custom", "custom_attribute", "property", "html", "svg", "mathml", "event", "ev", "element", "attribute", "undelegated", "click", "input", "div", "p", "mi", "circle", "title", "hidden", "node_ref", "inner_html", "format", "vec", "format_args", "convert", "boxed", "fmt", "__x", "__y", "x", "e", "el", "value", "props", "slot", "item", "head", "a", "b", "c", "f", "view", "mview_impl", "str", "bool", "u8", "i32", "char", "usize",
];
const KINDS: &[&str] = &[
    "mod % {}",
    "fn %() {}",
    "struct %;",
    "struct % {}",
    "const %: u16 = 0;",
    "static %: u16 = 0;",
    "enum % {}",
    "trait % {}",
    "type % = u16;",
    "macro_rules! % { ($($t:tt)*) => { compile_error!(\"the wrong macro\") } }",
    "let % = 0u16;",
    "mod zz { pub mod % {} } use zz::%;",
    "mod zz { pub fn %() {} pub struct Zz; } use zz::*;",
];

/// Whole scopes.
const SCOPES: &[&str] = &[
    "trait Zz { fn into(self) -> u16; } impl<T> Zz for T { fn into(self) -> u16 { 0 } }",
    "trait Zz { fn into_attribute_value(self) -> u16; } impl<T> Zz for T { fn into_attribute_value(self) -> u16 { 0 } }",
    "trait Zz { fn to_children(self) -> u16; } impl<T> Zz for T { fn to_children(self) -> u16 { 0 } }",
    "trait Zz { fn new() -> u16; } impl<T> Zz for T { fn new() -> u16 { 0 } }",
    "trait Zz { fn into_vec(self) -> u16; } impl<T> Zz for T { fn into_vec(self) -> u16 { 0 } }",
    "mod leptos { pub mod tachys { pub mod html {} } pub mod prelude { pub struct View; } pub mod component {} } mod std { pub mod boxed { pub struct Box; } pub mod convert {} } use leptos::*; use self::leptos::prelude::View;",
    "use ::std as leptos; use ::leptos as std;",
    "use ::std as core; extern crate mvbase as leptos_mview;",
    "#[allow(non_upper_case_globals)] const closure: u16 = 0; static i_: u16 = 0;",
];

fn same(what: &str) -> Want {
    Want::Judge(
        what.into(),
        Rc::new(|out: &str| {
            let mut it = out.split('\u{1}').map(dom::parse);
            let first = it.next().unwrap();
            let s = |d: &Result<Vec<dom::Dom>, String>| d.as_ref().map_or_else(|e| e.clone(), |d| dom::show(d));
            it.find(|d| d.is_err() || *d != first).map(|d| format!("one renders as {}, the other as {}", s(&first), s(&d)))
        }),
    )
}

fn joined(items: &str, parts: &[String]) -> (Prog, Want) {
    (Prog { items: items.into(), code: format!("[{}].join(\"\\u{{1}}\")", parts.join(", ")) }, same("the same twice"))
}

/// The document in an empty scope and in this one.
fn shadowed(scope: &str, need: &str, d: &str) -> (Prog, Want) {
    let in_mod = format!("#[allow(unused)] mod zzz {{ use mvbase::*; use leptos_mview::mview; {scope} pub fn zzz() -> ::std::string::String {{ {need} mvbase::html(mview! {{ {d} }}) }} }}");
    // statements are no items
    if scope.starts_with("let ") {
        return joined("", &[format!("{{ {need} html(mview! {{ {d} }}) }}"), format!("{{ {need} {scope} mvbase::html(mview! {{ {d} }}) }}")]);
    }
    let bare = scope.contains("macro_rules!") || scope.contains("zz::*");
    let mut parts = vec![format!("{{ {need} html(mview! {{ {d} }}) }}"), format!("{{ {need} {scope} mvbase::html(mview! {{ {d} }}) }}")];
    if !bare && !scope.contains("use ") {
        parts.push(format!("{{ {in_mod} zzz::zzz() }}"));
    }
    joined("", &parts)
}

fn scopes(c: &mut Ctx) {
    let mut progs = vec![];
    for (j, n) in NAMES.iter().enumerate() {
        for (k, kind) in KINDS.iter().enumerate() {
            // `use leptos_mview::mview` of the harness; a variable cannot hide a variant
            if *n == "leptos_mview" && ["mod % {}", "enum % {}", "trait % {}", "type % = u16;", "struct % {}", "struct %;"].contains(kind) || kind.starts_with("let") && ["Some", "None", "Ok", "Err"].contains(n) {
                continue;
            }
            // what the language needs in the harness itself
            if k >= 2 && k != 4 && k != 5 && ["u8", "str", "bool", "i32", "usize", "char", "u16"].contains(n) && !kind.starts_with("macro") {
                continue;
            }
            // a glob import does not hide what another glob import brings along
            if kind.contains("zz::*") && ["html", "leptos", "ev", "View", "Children", "children", "view", "slot", "component", "IntoView", "prelude"].contains(n) {
                continue;
            }
            let all: Vec<_> = DOCS.iter().enumerate().filter(|(i, _)| !c.quick() || (k + j + i) % 7 < if ["let % = 0u16;", "const %: u16 = 0;", "struct %;", "mod % {}"].contains(kind) { 2 } else { 1 }).collect();
            for (_, (need, d)) in all {
                progs.push(shadowed(&kind.replace('%', n), need, d));
            }
        }
    }
    for s in SCOPES {
        for (need, d) in DOCS {
            progs.push(shadowed(s, need, d));
        }
    }
    // no names at all, except that `clone:` is a method call
    for (need, d) in DOCS.iter().filter(|d| !d.1.contains("clone:")) {
        let m = format!("#[no_implicit_prelude] mod zzz {{ use ::mvbase::*; use ::leptos_mview::mview; pub fn zzz() -> ::std::string::String {{ {need} html(mview! {{ {d} }}) }} }}");
        progs.push(joined("", &[format!("{{ {need} html(mview! {{ {d} }}) }}"), format!("{{ {m} zzz::zzz() }}")]));
    }
    c.progs("shadowing", "7 documents x 95 names x 13 kinds of items (quick: one or two of the documents each), 9 whole scopes, no_implicit_prelude; in functions and modules", progs);
}

/// Where an invocation can stand.
pub(super) const INVOCATIONS: &[&str] = &[
    "html(¤)",
    "{ let v = ¤; html(v) }",
    "{ let v = || ¤; html(v()) }",
    "{ fn q() -> impl IntoView { ¤ } html(q()) }",
    "{ fn q() -> impl IntoView { return ¤; } html(q()) }",
    "{ #[component] fn Q() -> impl IntoView { ¤ } html(view! { <Q/> }) }",
    "{ #[component] fn Q() -> impl IntoView { ¤ } html(mview! { Q; }) }",
    "html(if true { ¤.into_any() } else { ().into_any() })",
    "html(match 1 { 1 => ¤.into_any(), _ => ().into_any() })",
    "html(match Some(1) { Some(_) => Some(¤), _ => None })",
    "html(Some(¤))",
    "html(vec![¤])",
    "html((¤,))",
    "html([¤])",
    "html(view! { {¤} })",
    "html(view! { {move || ¤} })",
    "html(mview! { {¤} })",
    "html(mview! { [¤] })",
    "html({ ¤.into_view() })",
    "html((¤).into_any())",
    "html(¤ .into_any())",
    "html(Box::new(|| ¤)())",
    "html((move || ¤)())",
    "html(async { ¤  }.into_any_fut())",
    "html(unsafe { ¤ })",
    "html(loop { break ¤ })",
    "html((1..2).map(|_| ¤).collect::<Vec<_>>())",
    "{ macro_rules! q { ($e:expr) => { html($e) } } q!(¤) }",
    "{ macro_rules! q { ($($e:tt)*) => { html({ $($e)* }) } } q!(¤) }",
    "{ struct S<T> { v: T } html(S { v: ¤ }.v) }",
    "{ let v; v = ¤; html(v) }",
    "{ let (v, _) = (¤, 1); html(v) }",
    "html({ ; ¤ })",
    "html({ if false { let _ = ¤; } ¤ })",
    "{ trait Q { fn q(&self) -> String { html(¤) } } impl Q for u8 {} 1u8.q() }",
    "{ const fn k() -> u8 { 1 } let _ = k(); mod q { use mvbase::*; use leptos_mview::mview; pub fn q() -> String { html(¤) } } q::q() }",
];

/// Where a string can be written: `¤`; and whether a closure can.
pub(super) const PLACES: &[(&str, bool)] = &[
    ("¤", true),
    ("div { ¤ }", true),
    ("div ( \"a\" ¤ \"b\" )", true),
    ("div title=¤;", true),
    ("div data-x=¤;", true),
    ("div class=¤;", true),
    ("div style=¤;", true),
    ("div style:left=¤;", true),
    ("div prop:p=¤;", true),
    ("div use:d3=¤;", false),
    ("div inner_html=¤;", true),
    ("circle x=¤;", true),
    ("mi dir=¤;", true),
    ("my-el y=¤ { \"k\" }", true),
    ("Card { ¤ }", true),
    ("Twice ( p { ¤ } )", true),
    ("Each |_| { ¤ }", true),
    ("Props b=¤;", false),
    ("Props b=¤ { \"k\" }", false),
    ("Calls f=¤;", true),
    ("Leaf attr:title=¤;", true),
    ("Leaf attr:data-x=¤;", true),
    ("Leaf attr:class=¤;", true),
    ("Leaf style:left=¤;", true),
    ("Leaf prop:p=¤;", true),
    ("Leaf use:d3=¤;", false),
    ("Layout { slot:Head label=¤; }", false),
    ("Layout { slot:Head { ¤ } }", true),
];
const FORMS: &[(&str, bool)] = &[("{$}", false), ("[$]", true), ("f[\"{}-\", $]", true), ("{ let q = $; q }", false), ("[{ $ }]", true), ("{ std::convert::identity($) }", false)];

const EXPRS: &[&str] = &[
    "\"x\"", "s", "if true { \"x\" } else { \"y\" }", "{ \"x\" }", "concat!(\"x\", \"y\")", "s.trim()", "*&s", "fst(\"x\", 1)", "unsafe { \"x\" }", "P { a: \"x\" }.a", "(|| \"x\")()", "&\"xy\"[..1]", "loop { break \"x\" }", "[\"x\"][0]", "match 1 { 1 => \"x\", _ => \"y\" }", "s as &str", "P::K", "<P>::K", "r\"x\"", "()==() && { return_x() } == \"x\" || false",
];
const PRE: &str = "let s = \"x\"; #[derive(Clone)] struct P { a: &'static str } impl P { const K: &'static str = \"pk\"; } fn fst(a: &'static str, _: i32) -> &'static str { a }";

fn values(c: &mut Ctx) {
    let mut progs = vec![];
    let exprs: Vec<&str> = EXPRS.iter().copied().filter(|e| !e.contains("return_x")).collect();
    for (pi, (p, clos)) in PLACES.iter().enumerate() {
        let mut put = |kind: &str, form: &str, direct: &str, v: &str| {
            for nested in [false, true] {
                if nested && c.quick() && pi % 4 != 0 {
                    continue;
                }
                let m = format!("macro_rules! m {{ ($a:{kind}) => {{ mview! {{ {} }} }} }}", p.replace('¤', &form.replace('$', "$a")));
                let outer = if nested { format!("macro_rules! n {{ ($a:{kind}) => {{ m!($a) }} }}") } else { String::new() };
                let code = [format!("html({}!({v}))", if nested { "n" } else { "m" }), format!("html(mview! {{ {} }})", p.replace('¤', direct))];
                let (mut pr, w) = joined(PRE, &code);
                pr.code = format!("let s = \"x\"; {m} {outer} {}", pr.code);
                progs.push((pr, w));
            }
        };
        for (f, is_clos) in FORMS {
            if *is_clos && !clos || *p == "Calls f=¤;" && !is_clos {
                continue;
            }
            let d = |v: &str| match *f {
                "{ std::convert::identity($) }" => format!("{{ {v} }}"),
                "f[\"{}-\", $]" => format!("f[\"{{}}-\", {v}]"),
                f => f.replace('$', v),
            };
            for (i, e) in exprs.iter().enumerate() {
                if !c.quick() || (i + pi) % 4 == 0 {
                    // a borrow of a temporary does not live long enough in some
                    put("expr", f, &d(e), e);
                }
            }
            put("literal", f, &d("\"x\""), "\"x\"");
            put("ident", f, &d("s"), "s");
            put("block", f, &d("{ \"x\" }"), "{ \"x\" }");
            put("tt", f, &d("\"x\""), "\"x\"");
            put("tt", f, &d("{ s }"), "{ s }");
        }
        if *p != "Calls f=¤;" {
            put("literal", "$", "\"x\"", "\"x\"");
            put("literal", "$", "r#\"x\"#", "r#\"x\"#");
            put("tt", "$", "\"x\"", "\"x\"");
            put("tt", "$", "{ s }", "{ s }");
            put("block", "$", "{ s }", "{ s }");
        }
        if *clos {
            put("literal", "f[$]", "f[\"{{}}\"]", "\"{{}}\"");
            put("tt", "f$", "f[\"{s}\"]", "[\"{s}\"]");
            put("tt", "$", "[s]", "[s]");
            put("ident", "f[\"{}\", $]", "f[\"{}\", s]", "s");
            put("tt", "$ [\"a{}\", 1]", "f[\"a{}\", 1]", "f");
        }
    }
    c.progs("values from macros", "28 places x 6 forms of values x expr, literal, ident, block and tt fragments (20 expressions; quick: a quarter), passed through one and two macros", progs);
}

/// Templates with names from fragments: kind, template, what to fill in.
const FILL: &[(&str, &str, &[&str])] = &[
    ("ident", "$ ;", &["div", "circle", "mi", "Leaf", "r#div", "Opt"]),
    ("ident", "$ { \"k\" }", &["div", "svg", "math", "Card", "Twice"]),
    ("ident", "$.a #b title=\"t\";", &["div", "circle", "mi"]),
    ("ident", "x-$ ;", &["y", "Card", "use"]),
    ("ident", "$-x { \"k\" }", &["y", "use"]),
    ("ident", "div .$;", &["a", "r#fn", "self", "fn"]),
    ("ident", "div #$.$-$;", &["a", "type"]),
    ("ident", "div class:$=true class:a-$=true;", &["b", "self"]),
    ("ident", "div style:$=\"1\";", &["left", "color"]),
    ("ident", "div style:margin-$=\"1\" style:$-x=\"2\";", &["left"]),
    ("ident", "div prop:$=1 ;", &["value", "r#type"]),
    ("ident", "div on:$={h1};", &["click", "input"]),
    ("ident", "div on:$:undelegated={h1};", &["click", "input"]),
    ("ident", "div on:click:$={h1};", &["undelegated"]),
    ("ident", "div use:$;", &["d1"]),
    ("ident", "div use:$=3;", &["d2"]),
    ("ident", "div $=\"x\";", &["title", "r#class", "id"]),
    ("ident", "div $;", &["hidden", "inert"]),
    ("ident", "div data-$=\"x\" aria-$=\"y\";", &["label"]),
    ("ident", "my-el $=\"x\" $-$=\"y\";", &["label"]),
    ("ident", "div {$};", &["title", "lang"]),
    ("ident", "div class:{$};", &["flag"]),
    ("ident", "div prop:{$};", &["title"]),
    ("ident", "div on:{$};", &["click"]),
    ("ident", "div on:{$}:undelegated;", &["click"]),
    ("ident", "Props $=5;", &["a", "r#type", "the_long_name"]),
    ("ident", "Props $;", &["c"]),
    ("ident", "Props {$};", &["a"]),
    ("ident", "Props the-$-name=3;", &["long"]),
    ("ident", "Leaf attr:$=\"x\" attr:data-$=\"y\";", &["title", "lang"]),
    ("ident", "Leaf attr:{$};", &["title", "lang"]),
    ("ident", "Leaf.$ class:$ class:$-b=true;", &["a"]),
    ("ident", "Leaf #$.x-$ #$-y ;", &["a"]),
    ("ident", "Leaf on:$={h1} on:$:undelegated={h1};", &["click"]),
    ("ident", "Leaf prop:$=1 style:$=\"2\";", &["left", "r#type"]),
    ("ident", "Leaf use:$;", &["d1"]),
    ("ident", "mvbase::$;", &["Leaf", "Opt"]),
    ("ident", "mvbase::deep::er::$ class:k;", &["Leaf"]),
    ("ident", "$::Leaf;", &["mvbase"]),
    ("ident", "::$::deep::Card { \"k\" }", &["mvbase"]),
    ("ident", "Gen<$>;", &["i32", "String", "DP"]),
    ("ident", "Layout { slot:$ { \"k\" } }", &["Head", "Item", "TwoWords", "Type", "r#Type"]),
    ("ident", "Layout { slot:$ { \"k\" } slot:$ { \"l\" } }", &["Item"]),
    ("ident", "Layout { $:Head { \"k\" } \"x\" }", &["slot"]),
    ("ident", "Layout { slot:Item $=3; }", &["n"]),
    ("ident", "Layout { slot:Item {$}; }", &["n"]),
    ("ident", "Each |$| { \"k\" }", &["i", "_i"]),
    ("ident", "Each |$| { {$} }", &["i", "title"]),
    ("ident", "Each |$| { f[\"{}\", $] [$ + 1] Leaf attr:title={$.to_string()}; }", &["i"]),
    ("ident", "Twice clone:$ { {$.get()} } p { {$.get()} }", &["cl"]),
    ("ident", "div $:a=true;", &["class"]),
    ("ident", "div $:left=\"1\";", &["style"]),
    ("ident", "div $:click={h1};", &["on"]),
    ("ident", "div $:value=1;", &["prop"]),
    ("ident", "Leaf $:left=\"1\";", &["style", "attr", "prop"].split_at(1).0),
    ("ident", "Twice $:cl { {cl.get()} }", &["clone"]),
    ("tt", "$ ;", &["div", "circle", "Leaf"]),
    ("tt", "div .$;", &["a"]),
    ("tt", "div $", &["{ \"k\" br; }", "(\"k\" br;)", ";"]),
    ("tt", "div title=$", &["{ s }", "[s]"].split_at(0).0),
    ("tt", "div title=$ { \"k\" }", &["{ s }", "[s]", "\"x\"", "true", "false"]),
    ("tt", "div title $ \"x\" ;", &["="]),
    ("tt", "div on $ click={h1};", &[":"]),
    ("tt", "div data $ b=\"x\";", &["-"]),
    ("tt", "div $;", &["{title}", "{..leptos::tachys::html::attribute::lang(\"l\")}"]),
    ("tt", "div $a;", &[".", "#"]),
    ("tt", "mvbase::$;", &["Leaf"]),
    ("tt", "Gen<$>;", &["i32", "(u8, i8)", "[u8; 2]"]),
    ("tt", "Props a=$;", &["1", "{ 1 }"]),
    ("tt", "Props ch=$;", &["'c'"]),
    ("tt", "Each |$| $", &["i"].split_at(0).0),
    ("literal", "Props a=$;", &["1", "-1", "0x1f", "1i32", "1_0"]),
    ("literal", "Props c=$;", &["true", "false"]),
    ("literal", "Props ch=$;", &["'c'", "'\\n'"]),
    ("literal", "Props fl=$;", &["1.5", "-1.5", "1e3"]),
    ("literal", "div class:$=true style:$=\"1\" prop:$=2;", &["\"x-y\"", "r\"z\""]),
    ("literal", "Leaf class:$ style:$=\"1\" prop:$=2;", &["\"x-y\"", "r\"z\""]),
    ("literal", "div class:a=$ hidden=$;", &["true", "false"]),
    ("literal", "input value=$;", &["1", "true", "\"x\"", "'c'", "1.5", "-3", "1u8"]),
    ("literal", "input $=$;", &["1"].split_at(0).0),
    ("ty", "Gen<$>;", &["i32", "Vec<i32>", "&'static str", "(i32, u8)", "[u8; 2]", "fn(i32) -> u8", "mvbase::DP", "Box<dyn Fn()>", "<u8 as Iterator2>::Item"].split_at(8).0),
    ("ty", "Gen::<$> { \"k\" }", &["i32", "Vec<Vec<i32>>"]),
    ("ty", "Gen2<$, u8>;", &["i32", "Option<(u8,)>"]),
    ("ty", "Gen2<Vec<$>, $>.a;", &["i32", "(u8,)"]),
    ("ty", "{ let q: $ = Default::default(); q } [<$>::default()]", &["i32", "String"]),
    ("path", "$ ;", &["Leaf", "mvbase::Leaf", "::mvbase::Leaf", "mvbase::deep::er::Leaf"]),
    ("path", "$ { \"k\" }", &["Card", "mvbase::Card", "::mvbase::deep::Card"]),
    ("path", "$.a #b class:c attr:title=\"t\";", &["Leaf", "mvbase::Leaf"]),
    ("path", "div on:click={$};", &["h1", "mvbase::h1"]),
    ("path", "{ $(1) }", &["std::convert::identity"]),
    ("pat", "Each |$| { \"k\" }", &["_", "_i", "1..", "_ @ _", "0 | 1 | _"].split_at(2).0),
    ("pat", "Pair |$| { \"k\" }", &["(_, _)", "_", "(_a, _b)", "(_a, ..)"]),
    ("pat", "Points |$| { \"k\" }", &["Pt { x: _, y: _ }", "Pt { .. }", "mvbase::Pt { x: _x, .. }"]),
    ("pat", "Two |$, _| { \"k\" }", &["_", "_a"]),
    ("lifetime", "{ let q: &$ str = \"x\"; q }", &["'static"]),
    ("lifetime", "{ $: loop { break $; } } [$: loop { break $ \"x\"; }]", &["'q"]),
    ("stmt", "{ $; \"x\" } [ $; 1]", &["let _q = 1", "()"]),
    ("item", "{ $ 1 }", &["fn q() {}", "struct Q;"]),
    ("block", "div title=$ lang=$ { $ }", &["{ s }", "{ let a = s; a }"]),
    ("block", "Props b=$ { {$} [$] }", &["{ s }"]),
];

fn names(c: &mut Ctx) {
    let mut progs = vec![];
    let mut far = vec![];
    let need = "let s = \"x\"; let cl = Cl::new(\"c\"); let title = \"ti\"; let lang = \"la\"; let flag = true; let click = h1::<leptos::ev::MouseEvent>; let a = 7; let n = 8;";
    for (kind, t, vals) in FILL {
        for v in *vals {
            for wrap in ["¤", "div { ¤ }", "Card { \"<\" ¤ \">\" }"] {
                // shadows what the other wants
                if *v == "'q" && wrap != "¤" || c.quick() && wrap == "div { ¤ }" && t.len() % 2 == 0 {
                    continue;
                }
                for nested in [false, true] {
                    let n = if nested { format!("macro_rules! n {{ ($a:{kind}) => {{ m!($a) }} }}") } else { String::new() };
                    let m = format!("macro_rules! m {{ ($a:{kind}) => {{ mview! {{ {} }} }} }} {n}", wrap.replace('¤', &t.replace('$', "$a").replace("$aa", "$a a")));
                    let d = wrap.replace('¤', &t.replace('$', v));
                    let call = if nested { "n" } else { "m" };
                    if wrap == "¤" && !t.contains("cl.get()") {
                        far.push(joined(&format!("far:{m}"), &[format!("{{ {need} html({call}!({v})) }}"), format!("{{ {need} html(mview! {{ {d} }}) }}")]));
                    }
                    progs.push(joined("", &[format!("{{ {need} {m} html({call}!({v})) }}"), format!("{{ {need} html(mview! {{ {d} }}) }}")]));
                }
            }
        }
    }
    // several at once
    let multi: &[(&str, &str, &str, &str)] = &[
        ("$($k:ident = $v:expr),*", "div $($k={$v})* ;", "title = \"a\", lang = \"b\", id = 1 + 2", "div title=\"a\" lang=\"b\" id={1 + 2} ;"),
        ("$($k:ident = $v:expr),*", "Props $($k={$v})* ;", "a = 1, c = true, b = \"x\"", "Props a=1 c=true b=\"x\";"),
        ("$($v:expr),*", "ul { $(li { {$v} })* }", "1, \"b\", 2 + 3", "ul { li { {1} } li { {\"b\"} } li { {2 + 3} } }"),
        ("$($v:expr),*", "$([$v])*", "1, \"b\", 2 + 3", "[1] [\"b\"] [2 + 3]"),
        ("$($v:expr),*", "Card { $(f[\"{}\", $v])* }", "1, \"b\", 2 * 3", "Card { f[\"{}\", 1] f[\"{}\", \"b\"] f[\"{}\", 2 * 3] }"),
        ("$($v:expr),*", "p { f[\"{}{}{}\" $(, $v)*] }", "1, \"b\", 2 * 3", "p { f[\"{}{}{}\", 1, \"b\", 2 * 3] }"),
        ("$($i:ident)*", "$($i { \"k\" })*", "div p Card", "div { \"k\" } p { \"k\" } Card { \"k\" }"),
        ("$($i:ident)*", "div $(.$i)* ;", "a b c", "div.a.b.c;"),
        ("$($i:ident)-*", "div.$($i)-* ;", "a-b-c", "div.a-b-c;"),
        ("$($i:ident)*", "div $(class:$i=true)* ;", "a b c", "div.a.b.c;"),
        ("$($i:ident)*", "Layout { $(slot:$i { \"k\" })* }", "Item Head Item", "Layout { slot:Item { \"k\" } slot:Head { \"k\" } slot:Item { \"k\" } }"),
        ("$($i:ident)::*", "$($i)::* { \"k\" }", "mvbase::deep::er::Card", "mvbase::deep::er::Card { \"k\" }"),
        // that `$a * $b` means something else than in other macros is rust-lang/rust#67062
        ("$e:expr, $p:pat", "Each |$p| { {$e} }", "i + 1, i", "Each |i| { {i + 1} }"),
        ("$e:expr, $p:pat", "Pair |$p| { {$e} }", "x + 1, (x, _)", "Pair |(x, _)| { {x + 1} }"),
        ("$e:expr, $p:pat", "Points |$p| { p { [$e] } }", "x + y, Pt { x, y }", "Points |Pt { x, y }| { p { [x + y] } }"),
        ("$($p:pat),* => $e:expr", "Two |$($p),*| { {$e} }", "a, b => format!(\"{a}{b}\")", "Two |a, b| { {format!(\"{a}{b}\")} }"),
        ("$($t:ty),*", "Gen2<$($t),*>;", "u8, Vec<i8>", "Gen2<u8, Vec<i8>>;"),
        ("$t:ty, $e:expr", "{ <$t>::from($e) }", "String, \"x\"", "{ \"x\" }"),
    ];
    for (pat, t, call, d) in multi {
        for wrap in ["¤", "div { ¤ }", "Card { \"<\" ¤ \">\" }", "Layout { slot:Head { ¤ } }"] {
            let m = format!("macro_rules! m {{ ({pat}) => {{ mview! {{ {} }} }} }}", wrap.replace('¤', t));
            if wrap == "¤" {
                far.push(joined(&format!("far:{m}"), &[format!("html(m!({call}))"), format!("html(mview! {{ {} }})", wrap.replace('¤', d))]));
            }
            progs.push(joined("", &[format!("{{ {m} html(m!({call})) }}"), format!("html(mview! {{ {} }})", wrap.replace('¤', d))]));
        }
    }
    // whole documents
    for (need, d) in DOCS {
        for m in [
            "macro_rules! m { ($($t:tt)*) => { mview! { $($t)* } } }",
            "macro_rules! k { ($($t:tt)*) => { mview! { $($t)* } } } macro_rules! m { ($($t:tt)*) => { k! { $($t)* } } }",
            "macro_rules! m { ($a:tt $($t:tt)*) => { mview! { $a $($t)* } } }",
            "use leptos_mview::mview as m;",
            "mod q { pub use leptos_mview::mview as m; } use q::m;",
            "mod q { pub use leptos_mview::*; } use q::mview as m;",
        ] {
            progs.push(joined("", &[format!("{{ {need} {m} html(m! {{ {d} }}) }}"), format!("{{ {need} html(mview! {{ {d} }}) }}")]));
        }
        let m = format!("macro_rules! m {{ () => {{ mview! {{ {d} }} }} }}");
        if need.is_empty() {
            progs.push(joined("", &[format!("{{ {m} html(m!()) }}"), format!("html(mview! {{ {d} }})")]));
            let m = format!("macro_rules! m {{ ($n:ident) => {{ macro_rules! $n {{ () => {{ mview! {{ {d} }} }} }} }} }}");
            progs.push(joined("", &[format!("{{ {m} m!(k); html(k!()) }}"), format!("html(mview! {{ {d} }})")]));
        }
    }
    c.progs("names and types from macros", "all templates with ident, tt, literal, ty, path, pat, lifetime, stmt, item and block fragments, in 3 parents and through one and two macros; repetitions; whole documents through 8 kinds of macros and imports", progs);

    // the tokens of one name are from two files
    let need = "let s = \"x\";";
    for (p, clos) in PLACES {
        for (f, is_clos) in FORMS {
            if *is_clos && !clos || *p == "Calls f=¤;" && !is_clos {
                continue;
            }
            let t = p.replace('¤', &f.replace('$', "$a"));
            let d = p.replace('¤', &f.replace('$', "s"));
            for kind in ["ident", "expr"] {
                far.push(joined(&format!("far:macro_rules! m {{ ($a:{kind}) => {{ mview! {{ {t} }} }} }}"), &[format!("{{ {need} html(m!(s)) }}"), format!("{{ {need} html(mview! {{ {d} }}) }}")]));
            }
        }
    }
    c.progs("macros of other files", "all of these templates and 28 places x 6 forms of values by macros of another file, so that spans cannot be joined", far);
}

/// Every place and form of a value that a macro passes on from its caller,
/// whose variables have the names of variables of the macro.
pub fn passed_on(quick: bool) -> Vec<(Prog, Want)> {
    let mut progs = vec![];
    let more: &[(&str, bool)] = &[("{ $; $ }", false), ("{ ($) }", false), ("[($)]", true), ("f[\"{}{x}\", $]", true), ("f[\"{x}{}\", $,]", true), ("[let q = $; q]", true), ("{move || $}", true), ("[f(&$)]", true), ("{f(&$).to_string()}", false), ("{{ $ }}", false), ("{$.to_string()}", false), ("[$ + \"\"]", true)];
    for (pi, (p, clos)) in PLACES.iter().enumerate() {
        for (fi, (f, is_clos)) in FORMS.iter().chain(more).enumerate() {
            if *is_clos && !clos || *p == "Calls f=¤;" && !is_clos || f.contains("|| $") && *p == "Calls f=¤;" {
                continue;
            }
            for (ki, kind) in ["ident", "expr", "tt", "block", "path"].into_iter().enumerate() {
                if quick && (pi + fi + ki) % 2 != 0 && kind != "ident" {
                    continue;
                }
                // variables that are neither `Copy` nor moved twice
                let arg = if kind == "block" { "{ x }" } else { "x" };
                let f = if f.contains("+ \"\"") { f.replace("$ +", "$.to_owned() +") } else { f.to_string() };
                if kind == "block" && (f.contains("{ $;") || f.contains("$.to")) {
                    continue;
                }
                if f.contains("to_string") && (p.contains("use:d3") || p.contains("Props b") || p.contains("label=")) || f.contains("f(&$)") && *p == "Calls f=¤;" {
                    continue;
                }
                let t = p.replace('¤', &f.replace('$', "$a"));
                let d = p.replace('¤', &f.replace("{x}", "{y}").replace('$', &arg.replace('x', "x_out")));
                let m = format!("macro_rules! m {{ ($a:{kind}) => {{{{ let x = \"in\"; let q = \"q\"; let _ = (x, q); mview! {{ {t} }} }}}} }}");
                progs.push(joined(
                    "fn f<T: ToString>(t: &T) -> String { t.to_string() }",
                    &[format!("{{ let x = \"out\"; let _ = x; {m} html(m!({arg})) }}"), format!("{{ let (x_out, y) = (\"out\", \"in\"); let _ = (x_out, y); html(mview! {{ {d} }}) }}")],
                ));
            }
        }
    }
    progs
}

/// Variables of the same name inside and outside of a macro.
fn hygiene(c: &mut Ctx) {
    let mut progs = vec![];
    let both = |items: &str, t: &str, arg: &str, kind: &str, direct: &str| {
        let m = format!("macro_rules! m {{ ($a:{kind}) => {{{{ let x = \"in\"; let title = \"tin\"; let b = \"bin\"; let data_k = \"din\"; mview! {{ {t} }} }}}} }}");
        joined(
            items,
            &[
                format!("{{ let x = \"out\"; let title = \"tout\"; let b = \"bout\"; let data_k = \"dout\"; {m} html(m!({arg})) }}"),
                format!("{{ let x_in = \"in\"; let x_out = \"out\"; html(mview! {{ {direct} }}) }}"),
            ],
        )
    };
    let forms = FORMS;
    let mut all = vec![];
    for (p, clos) in PLACES {
        for (f, is_clos) in forms {
            if *is_clos && !clos || *p == "Calls f=¤;" && !is_clos {
                continue;
            }
            all.push((*p, *f));
        }
        if *clos {
            all.push((p, "f[\"{}{x}\", $]"));
            all.push((p, "f[\"{x}{}{x}\", $, x = $]"));
        }
    }
    let q = c.quick();
    for (i, (p1, f1)) in all.iter().enumerate() {
        for (k, (p2, f2)) in all.iter().enumerate() {
            // every pair of some, every one with some
            if q && (i * 7 + k) % 31 != 0 || q && (i + k) % 3 != 0 {
                continue;
            }
            let put = |p: &str, f: &str, v: &str, own: &str| {
                let f = f.replace('$', v);
                p.replace('¤', &if v == own { f } else { f.clone() })
            };
            let t = format!("{} {}", put(p1, f1, "x", "x"), put(p2, f2, "$a", ""));
            let named = |f: &str, v: &str| f.replace("{x}", "{x_in}").replace('$', v);
            let explicit = f1.contains("x = $") || f2.contains("x = $");
            let d1 = if explicit { p1.replace('¤', &f1.replace('$', "x_in")) } else { p1.replace('¤', &named(f1, "x_in")) };
            let d2 = if explicit { p2.replace('¤', &f2.replace('$', "x_out")) } else { p2.replace('¤', &named(f2, "x_out")) };
            // mixed: only one of them names its argument
            let d1 = if explicit && !f1.contains("x = $") { p1.replace('¤', &named(f1, "x_in")) } else { d1 };
            let d2 = if explicit && !f2.contains("x = $") { p2.replace('¤', &named(f2, "x_out")) } else { d2 };
            let sep = |s: &str| s.to_string();
            progs.push(both("", &sep(&t), "x", "expr", &format!("{d1} {d2}")));
        }
    }
    // the macro's own names
    let own: &[(&str, &str, &str, &str)] = &[
        ("div {title} { {$a} }", "title", "expr", "div title=\"tin\" { \"tout\" }"),
        ("div {data-k} { {$a} }", "data_k", "expr", "div data-k=\"din\" { \"dout\" }"),
        ("Props {b} { {$a} }", "b", "expr", "Props b=\"bin\" { \"bout\" }"),
        ("Leaf attr:{title} attr:lang={$a};", "title", "expr", "Leaf attr:title=\"tin\" attr:lang=\"tout\";"),
        ("Leaf attr:{data-k} attr:lang={$a};", "data_k", "expr", "Leaf attr:data-k=\"din\" attr:lang=\"dout\";"),
        ("div prop:{x} style:left={$a};", "x", "expr", "div prop:x={x_in} style:left={x_out};"),
        ("div {$a};", "title", "ident", "div title=\"tout\";"),
        ("div {$a} { {title} }", "title", "ident", "div title=\"tout\" { br; {\"tin\"} }"),
        ("p { f[$a] f[\"{x}\"] }", "\"{x}\"", "literal", "p { {x_out} {x_in} }"),
        ("p title=f[$a] lang=f[\"{x}\"];", "\"{x}\"", "literal", "p title={x_out} lang={x_in};"),
        ("Each |x| { {x} {$a} }", "x", "expr", "Each |x| { {x} {x_out} }"),
        ("Each |x| { p { [x] [$a] f[\"{x}{}\", $a] } }", "x", "expr", "Each |x| { p { [x] [x_out] f[\"{x}{}\", x_out] } }"),
        ("Each |$a| { {$a} {x} }", "x", "ident", "Each |i| { {i} {x_in} }"),
        ("Pair |(x, title)| { {x} {$a} {title} }", "title", "expr", "Pair |(x, title)| { {x} {\"tout\"} {title} }"),
        ("Each |x| { Pair |($a, y)| { {x} {$a} {y} } }", "x", "ident", "Each |x| { Pair |(z, y)| { {x} {z} {y} } }"),
        ("Twice clone:x { {x} {$a} }", "x", "expr", "Twice { {x_in} {x_out} }"),
        ("Twice clone:$a { {x} {$a} }", "x", "ident", "Twice { {x_in} {x_out} }"),
        ("Each |x| { Twice clone:x clone:$a { {x} {$a} } }", "title", "ident", "Each |x| { Twice { {x} {\"tout\"} } }"),
        ("{ let x = 1; $a } [{ let x = 2; $a }]", "x", "expr", "{x_out} {x_out}"),
        ("div title={ let x = \"q\"; $a } lang=[ let x = \"q\"; $a ];", "x", "expr", "div title={x_out} lang={x_out};"),
        ("{ let x = 1; macro_rules! k { () => { x } } k!() } {$a}", "x", "expr", "{1} {x_out}"),
    ];
    for (t, arg, kind, d) in own {
        for wrap in ["¤", "div { ¤ }", "Card { ¤ }", "Layout { slot:Head { ¤ } }"] {
            if t.contains("{ {title} }") {
                continue;
            }
            progs.push(both("", &wrap.replace('¤', t), arg, kind, &wrap.replace('¤', d)));
        }
    }
    c.progs("variables of macros", "pairs of places and forms, one with the macro's variable and one with the caller's of the same name (quick: a ninetieth), 21 binding forms in 4 parents", progs);
}

/// Control flow out of values, and what functions have.
fn flow(c: &mut Ctx) {
    let mut progs = vec![];
    let t = |items: &str, code: &str, want: &str| (Prog { items: items.into(), code: code.into() }, Want::Text(want.into()));
    // values that are evaluated where they stand
    for (p, _) in PLACES {
        if *p == "Calls f=¤;" || p.contains("Card {") || p.contains("Twice") || p.contains("Each") || p.contains("slot:Head {") {
            continue;
        }
        let at = |v: &str| p.replace('¤', v);
        let x = at("\"x\"");
        for (q, w) in [("None", "none"), ("Some(\"x\")", "same")] {
            let code = format!("let f = |o: Option<&'static str>| -> Option<String> {{ Some(html(mview! {{ {} }})) }}; match f({q}) {{ None => \"none\".to_string(), Some(v) => if v == html(mview! {{ {x} }}) {{ \"same\".to_string() }} else {{ v }} }}", at("{o?}"));
            progs.push(t("", &code, w));
        }
        for (q, w) in [("true", "early"), ("false", "same")] {
            let code = format!("let f = |o: bool| -> String {{ html(mview! {{ {} }}) }}; let v = f({q}); if v == html(mview! {{ {x} }}) {{ \"same\".to_string() }} else {{ v }}", at("{ if o { return \"early\".to_string(); } \"x\" }"));
            progs.push(t("", &code, w));
            let code = format!("let v = 'q: {{ html(mview! {{ {} }}) }}; if v == html(mview! {{ {x} }}) {{ \"same\".to_string() }} else {{ v }}", at(&format!("{{ if {q} {{ break 'q \"early\".to_string(); }} \"x\" }}")));
            progs.push(t("", &code, w));
        }
        let code = format!("let mut n = 0; let mut v = String::new(); for i in 0..3 {{ v += &html(mview! {{ {} }}); n += 1; }} if v == html(mview! {{ {x} }}) {{ format!(\"same{{n}}\") }} else {{ v }}", at("{ if i != 1 { continue; } \"x\" }"));
        progs.push(t("", &code, "same1"));
        // the surrounding function
        for (items, call) in [
            ("fn q<T: Into<String>>(v: T) -> String { html(mview! { % }) }", "q(\"x\")"),
            ("fn q(v: impl Into<String>) -> String { html(mview! { % }) }", "q(\"x\")"),
            ("struct Q(&'static str); impl Q { fn q(&self) -> String { let v = self.0; html(mview! { % }) } }", "Q(\"x\").q()"),
            ("trait Q { const V: &'static str; fn q() -> String { let v = Self::V; html(mview! { % }) } } impl Q for u8 { const V: &'static str = \"x\"; }", "<u8 as Q>::q()"),
            ("fn q<const N: usize>(v: [&'static str; N]) -> String { let v = v[N - 1]; html(mview! { % }) }", "q([\"y\", \"x\"])"),
            ("async fn q(v: &'static str) -> String { html(mview! { % }) }", "{ fn b<F: std::future::Future>(f: F) -> F::Output { use std::task::*; let mut f = Box::pin(f); match f.as_mut().poll(&mut Context::from_waker(Waker::noop())) { Poll::Ready(v) => v, _ => panic!() } } b(q(\"x\")) }"),
            ("unsafe fn q(v: &'static str) -> String { html(mview! { % }) }", "unsafe { q(\"x\") }"),
            ("static Q: &str = \"x\"; fn q() -> String { let v = Q; html(mview! { % }) }", "q()"),
        ] {
            let v = if items.contains("Into<") { "{ let s: String = v.into(); s }" } else if items.contains("async") { "{ std::future::ready(v).await }" } else if items.contains("Q(&") { "{ self.0 }" } else if items.contains("Self::V") { "{ Self::V }" } else { "{v}" };
            let x = if items.contains("Into<") { at("{\"x\".to_string()}") } else { x.clone() };
            // `String` is no argument of the directive
            if p.contains("use:d3") && items.contains("Into<") {
                continue;
            }
            let items = items.replace('%', &at(v));
            let code = format!("let v = {call}; if v == html(mview! {{ {x} }}) {{ \"same\".to_string() }} else {{ v }}");
            progs.push(t(&items, &code, "same"));
        }
    }
    c.progs("control flow", "?, return, break, continue and await out of 22 places; 8 kinds of surrounding functions", progs);

    // where the invocation can stand
    let mut progs = vec![];
    for (need, d) in DOCS {
        for i in INVOCATIONS {
            if i.contains("into_any_fut") || !need.is_empty() && (i.contains("fn q") || i.contains("fn Q") || i.contains("(1..2)")) {
                continue;
            }
            for (o, e) in [("mview! { ", " }"), ("mview! ( ", " )"), ("mview! [ ", " ]"), ("leptos_mview::mview! { ", " }"), ("::leptos_mview::mview!(", ")")] {
                if o != "mview! { " && c.quick() && (d.len() + i.len()) % 4 != 0 {
                    continue;
                }
                progs.push((
                    Prog { items: String::new(), code: format!("[{{ {need} {} }}, {{ {need} html(mview! {{ {d} }}) }}].join(\"\\u{{1}}\")", i.replace('¤', &format!("{o}{d}{e}"))) },
                    same("the same twice"),
                ));
            }
        }
        // several in one scope, one inside of the other
        if need.is_empty() {
            let m = format!("mview! {{ {d} }}");
            progs.push(joined("", &[format!("html((mview! {{ div {{ {{{m}}} }} }}, mview! {{ Card {{ {{{m}}} }} }}))"), format!("html(mview! {{ div {{ {d} }} Card {{ {d} }} }})")]));
            progs.push(joined("", &[format!("html(mview! {{ div {{ {{ mview! {{ p {{ {{{m}}} }} }} }} }} }})"), format!("html(mview! {{ div {{ p {{ {d} }} }} }})")]));
        }
    }
    c.progs("invocations", "7 documents in 35 expressions that invoke the macro, with 5 kinds of delimiters and paths", progs);
}

/// Other editions of the calling crate.
fn editions(c: &mut Ctx) {
    let mut docs: Vec<(String, String)> = DOCS.iter().map(|(n, d)| (n.to_string(), d.to_string())).collect();
    let need = "let s = \"x\"; let cl = Cl::new(\"c\"); let title = \"ti\"; let lang = \"la\"; let flag = true; let a = 7; let n = 8; let click = h1::<leptos::ev::MouseEvent>;";
    for (_, t, vals) in FILL {
        for v in *vals {
            docs.push((need.into(), t.replace('$', v)));
        }
    }
    for (p, clos) in PLACES {
        for (f, is_clos) in FORMS {
            if *is_clos && !clos || *p == "Calls f=¤;" && !is_clos {
                continue;
            }
            docs.push((need.into(), p.replace('¤', &f.replace('$', "s"))));
        }
    }
    for k in ["dyn", "async", "await", "try", "gen", "abstract", "box", "type", "match", "union", "auto", "macro_rules", "raw", "safe", "yield", "static", "unsafe"] {
        docs.push((String::new(), format!("div.{k} #{k}-1 class:{k}=true class:x-{k}=true style:{k}=\"1\" prop:{k}=1 data-{k}=\"2\";")));
        docs.push((String::new(), format!("Leaf.{k} #{k}-1 class:{k} style:{k}=\"1\" prop:{k}=1 attr:data-{k}=\"2\";")));
        docs.push((String::new(), format!("x-{k} {k}=\"1\" {k}-y=\"2\"; {k}-x {{ \"k\" }}")));
        docs.push((format!("let r#{k} = 1;"), format!("{k}-x {{{k}}}; x-{k} prop:{{{k}}};")));
    }
    docs.push((String::new(), "script async defer; input type=\"a\"; label for=\"x\"; svg { use href=\"k\"; }".replace("use href", "set href")));
    let code = |need: &str, d: &str| Prog { items: String::new(), code: format!("{need} html(mview! {{ {d} }})") };
    let ps: Vec<Prog> = docs.iter().map(|(n, d)| code(n, d)).collect();
    c.real().set_edition("2021");
    let first = c.real().run(&ps);
    let mut progs = vec![];
    for (p, r) in ps.into_iter().zip(first) {
        match r {
            crate::real::Res::Ok(s) => progs.push((p, Want::Text(s))),
            // must not work elsewhere either, but it is a mistake of this list
            r => progs.push((p, Want::Text(format!("{} in 2021", r.short())))),
        }
    }
    for e in ["2018", "2024"] {
        c.edition = if e == "2018" { "2018" } else { "2024" };
        c.progs(&format!("edition {e}"), "documents with every feature, every value form in every place, and keywords of all editions as names", progs.clone());
    }
    c.edition = "2021";
}

/// All identifiers of a token stream.
fn idents(ts: proc_macro2::TokenStream, out: &mut std::collections::BTreeSet<String>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Ident(i) => {
                out.insert(i.to_string().trim_start_matches("r#").to_string());
            }
            proc_macro2::TokenTree::Group(g) => idents(g.stream(), out),
            _ => {}
        }
    }
}

/// Names that leptos, the standard library and the expansion use, as names of
/// the user's own things that values refer to.
fn used(c: &mut Ctx) {
    use crate::tables as t;
    let mut words: std::collections::BTreeSet<String> = include_str!("../words.txt").lines().map(String::from).collect();
    words.extend(NAMES.iter().map(|n| n.to_string()));
    words.extend(t::HTML.iter().map(|h| h.0).chain(t::MATH.iter().map(|m| m.0)).chain(t::SVG.iter().copied()).chain(t::EVENTS.iter().map(|e| e.0)).chain(t::ATTRS.iter().map(|a| a.0)).map(|n| n.replace('-', "_")));
    for (_, d) in DOCS {
        // every name that the expansion brings along
        if let Some(ts) = crate::expand::expand_ts(d.parse().unwrap()).tokens {
            idents(ts, &mut words);
        }
    }
    words.retain(|w| !matches!(&**w, "self" | "Self" | "super" | "crate" | "_" | "Head" | "zz_l" | "zz_L" | "zz_q" | "zz_d"));
    let words: Vec<String> = words.into_iter().collect();
    let doc = "div title={¤} class:k={¤.len() > 1} style:left={¤} prop:p={¤} data-x=[¤] on:click={let zz_q = ¤; move |_: ::leptos::ev::MouseEvent| { let _ = &zz_q; }} use:zz_d={¤} { {¤} [¤] f[\"{}\", ¤] \
        ::mvbase::Leaf attr:title={¤} attr:data-k=[¤] class:k={¤.len() > 1} style:left={¤} prop:p={¤} use:zz_d={¤} {..::leptos::tachys::html::attribute::lang(¤)}; \
        ::mvbase::Props b={¤} { {¤} } ::mvbase::Card { [¤] p lang={¤} { {¤} } } ::mvbase::Each |_| { {¤} } ::mvbase::Layout { slot:Head label={¤} { {¤} } {¤} } }";
    // kind, definition in the module, definition in the function, use
    let kinds: &[(&str, &str, &str, &str)] = &[
        ("variable", "", "let r#% = \"%\";", "r#%"),
        ("function", "fn r#%() -> &'static ::core::primitive::str { \"%\" }", "", "r#%()"),
        ("local function", "", "fn r#%() -> &'static ::core::primitive::str { \"%\" }", "r#%()"),
        ("constant", "const r#%: &'static ::core::primitive::str = \"%\";", "", "r#%"),
        ("type", "struct r#%; impl r#% { const K: &'static ::core::primitive::str = \"%\"; }", "", "r#%::K"),
        ("module", "mod r#% { pub const K: &'static ::core::primitive::str = \"%\"; }", "", "r#%::K"),
        ("macro", "", "macro_rules! r#% { () => { \"%\" } }", "r#%!()"),
        ("method", "trait Z_% { fn r#%(self) -> &'static ::core::primitive::str; } impl Z_% for ::mvbase::ZzQ { fn r#%(self) -> &'static ::core::primitive::str { \"%\" } }", "", "::mvbase::ZzQ.r#%()"),
    ];
    let mut progs = vec![];
    for chunk in words.chunks(40) {
        for (kind, outer, inner, usage) in kinds {
            let ok = |w: &&String| match *kind {
                // a pattern, not a variable
                "variable" => !matches!(&***w, "None" | "Some" | "Ok" | "Err"),
                // of everything
                "method" => !matches!(&***w, "into" | "try_into" | "borrow" | "borrow_mut" | "type_id"),
                _ => true,
            };
            let put = |t: &str| chunk.iter().filter(ok).map(|w| t.replace('%', w)).collect::<String>();
            let uses = chunk.iter().filter(ok).map(|w| usage.replace('%', w)).collect::<Vec<_>>().join(", ");
            let text = chunk.iter().filter(ok).cloned().collect::<Vec<_>>().join(",");
            let items = format!(
                "#[allow(unused)] mod zzz {{ use ::mvbase::{{d6 as zz_d, Head}}; use ::mvbase::traits::*; {} pub fn zzz() -> ::std::string::String {{ {} ::mvbase::html(::leptos_mview::mview! {{ {} }}) }} }}",
                put(outer),
                put(inner),
                doc.replace('¤', &format!("::mvbase::joined(&[{uses}])"))
            );
            let plain = format!("{{ use mvbase::d6 as zz_d; let zz_l: &'static str = {text:?}; html(mview! {{ {} }}) }}", doc.replace('¤', "zz_l"));
            let (mut p, w) = joined("", &["zzz::zzz()".into(), plain]);
            p.items = items;
            progs.push((p, w));
        }
        // components and types as arguments
        let types: Vec<&String> = chunk.iter().filter(|w| w.starts_with(|c: char| c.is_ascii_uppercase())).collect();
        let imports: String = types.iter().map(|w| format!("use ::mvbase::Leaf as {w}; ")).collect();
        let structs: String = types.iter().map(|w| format!("pub struct {w}; ")).collect();
        let docs: String = types.iter().map(|w| format!("{w}.a; ")).collect();
        let gens: String = types.iter().map(|w| format!("::mvbase::Gen<{w}>; ")).collect();
        for (items, d) in [(imports, docs), (structs, gens)] {
            if items.is_empty() {
                continue;
            }
            progs.push((
                Prog { items: format!("#[allow(unused)] mod zzz {{ use ::mvbase::traits::*; {items} pub fn zzz() -> ::std::string::String {{ ::mvbase::html(::leptos_mview::mview! {{ {d} }}) }} }}"), code: "zzz::zzz()".into() },
                {
                    let types: Vec<String> = types.iter().map(|t| t.to_string()).collect();
                    let gens = d.contains("Gen<");
                    Want::Judge(
                        format!("the things of the user: {}", types.join(" ")),
                        Rc::new(move |out: &str| {
                            let mut at = 0;
                            for t in &types {
                                let needle = if gens { format!("zzz::{t}<") } else { "class=\"leaf a\"".to_string() };
                                match out[at..].find(&needle) {
                                    Some(k) => at += k + needle.len(),
                                    None => return Some(format!("{t} is something else: {}", &out[at..])),
                                }
                            }
                            None
                        }),
                    )
                },
            ));
        }
    }
    c.progs("used names", &format!("{} names of leptos, of the standard library and of the expansion as variables, functions, constants, types, modules, macros and methods of the user, used in 22 places of values; as components and type arguments", words.len()), progs);
}

pub fn run(c: &mut Ctx) {
    scopes(c);
    used(c);
    values(c);
    names(c);
    hygiene(c);
    flow(c);
    editions(c);
}
