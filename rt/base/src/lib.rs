//! Palette and runtime of the generated programs. Written without `mview!`, so
//! that nothing here depends on the code under test.
#![allow(non_snake_case, unused, unreachable_code)]
pub use leptos;
pub use leptos::prelude::*;
use std::cell::{Cell, RefCell};

// ---------------------------------------------------------------- runtime //

thread_local! {
    static LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Records that something was evaluated.
pub fn log(s: impl std::fmt::Display) { LOG.with(|l| l.borrow_mut().push(s.to_string())) }
/// Records `s` and passes `v` through.
pub fn ev<T>(s: impl std::fmt::Display, v: T) -> T { log(s); v }
pub fn take_log() -> String { LOG.with(|l| std::mem::take(&mut *l.borrow_mut()).join(",")) }

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c => o.push(c),
        }
    }
    o
}

/// Runs one case and prints `id<TAB>status<TAB>output`.
pub fn run(id: usize, f: impl FnOnce() -> String) {
    use std::panic::{catch_unwind, AssertUnwindSafe};
    let owner = leptos::reactive::owner::Owner::new();
    owner.set();
    leptos::tachys::mv_observe::forget_refs();
    let _ = take_log();
    let r = catch_unwind(AssertUnwindSafe(f));
    match r {
        Ok(s) => println!("{id}\tok\t{}", esc(&s)),
        Err(_) => println!("{id}\tpanic\t{}", esc(&PANIC.with(|p| p.borrow().clone()))),
    }
    drop(owner);
}

pub fn init() {
    let _ = leptos::task::Executor::init_futures_executor();
    leptos::tachys::mv_observe::set_show(|v| v.downcast_ref::<DP>().map(|d| format!("{d:?}")).or_else(|| v.downcast_ref::<DQ>().map(|d| format!("{d:?}"))).or_else(|| v.downcast_ref::<Option<DQ>>().map(|d| format!("{d:?}"))));
    std::panic::set_hook(Box::new(|i| {
        PANIC.with(|p| *p.borrow_mut() = i.to_string());
    }));
}

pub fn html(v: impl IntoView) -> String { v.to_html() }
pub fn ty<T>(_: &T) -> &'static str { std::any::type_name::<T>() }
/// Evaluation log before rendering, while rendering, and the result.
pub fn probe<V: IntoView>(f: impl FnOnce() -> V) -> String {
    let _ = take_log();
    let v = f();
    let built = take_log();
    let h = v.to_html();
    let rendered = take_log();
    format!("{built}|{rendered}|{h}")
}

// --------------------------------------------------------------- handlers //

pub fn h1<E>(_: E) {}
pub fn h2<E>(_: E) {}
pub fn h3<E>(_: E) {}
pub fn h4<E>(_: E) {}
pub fn hn(n: u8) -> String { format!("n{n}") }

/// Directives without and with an argument.
pub fn d1(_el: leptos::tachys::renderer::types::Element) {}
pub fn d2(_el: leptos::tachys::renderer::types::Element, _n: i32) {}
pub fn d3(_el: leptos::tachys::renderer::types::Element, _n: DP) {}
/// Only reachable through `.into()`.
#[derive(Clone, Debug, PartialEq)]
pub struct DP(pub String);
impl From<&'static str> for DP { fn from(s: &'static str) -> Self { DP(s.into()) } }
impl From<i32> for DP { fn from(s: i32) -> Self { DP(s.to_string()) } }

/// Takes anything.
#[derive(Clone, Debug, PartialEq)]
pub struct DQ(pub String);
macro_rules! dq {
    ($($t:ty, $n:literal);*) => { $(impl From<$t> for DQ { fn from(x: $t) -> Self { DQ(format!("{}:{x}", $n)) } })* };
}
dq!(&'static str, "&str"; char, "char"; i32, "i32"; u8, "u8"; f64, "f64"; f32, "f32"; bool, "bool"; String, "String");
impl From<()> for DQ { fn from(_: ()) -> Self { DQ("unit:".into()) } }
impl From<&'static [u8; 2]> for DQ { fn from(x: &'static [u8; 2]) -> Self { DQ(format!("bytes:{}", x.len())) } }
impl From<Option<char>> for DQ { fn from(x: Option<char>) -> Self { DQ(format!("opt:{}", x.map_or(String::new(), |c| c.into()))) } }
impl From<(i32, char)> for DQ { fn from(x: (i32, char)) -> Self { DQ(format!("pair:{}{}", x.0, x.1)) } }
impl<F: Fn() -> T, T: Shown> From<F> for DQ { fn from(f: F) -> Self { DQ(f().shown()) } }
pub trait Shown { fn shown(self) -> String; }
impl Shown for i32 { fn shown(self) -> String { format!("fn:{self}") } }
impl Shown for String { fn shown(self) -> String { format!("fns:{self}") } }
pub fn d4(_el: leptos::tachys::renderer::types::Element, _n: DQ) {}
/// Takes a text.
pub fn d6(_el: leptos::tachys::renderer::types::Element, _n: &'static str) {}
pub fn d5(_el: leptos::tachys::renderer::types::Element, _n: Option<DQ>) {}

pub fn nref<E>(name: &str) -> NodeRef<E>
where E: leptos::tachys::html::element::ElementType, E::Output: 'static {
    NodeRef::mv_named(name)
}

// ------------------------------------------------------------- components //

#[component]
pub fn Leaf() -> impl IntoView { view! { <hr class="leaf"/> } }

#[component]
pub fn Card(children: Children) -> impl IntoView { view! { <section>{children()}</section> } }

/// Children are optional.
#[component]
pub fn Opt(#[prop(optional)] children: Option<Children>) -> impl IntoView {
    let has = children.is_some();
    view! { <aside data-has=has.to_string()>{children.map(|c| c())}</aside> }
}

/// No wrapping element.
#[component]
pub fn Bare(children: Children) -> impl IntoView { children() }

#[component]
pub fn Twice(children: ChildrenFn) -> impl IntoView {
    view! { <b>{children()}</b> <i>{children()}</i> }
}

/// Does not use its children.
#[component]
pub fn Never(children: ChildrenFn) -> impl IntoView {
    let _ = children;
    view! { <q></q> }
}

/// Runs its children only while it is rendered.
#[component]
pub fn Lazy(children: ChildrenFn) -> impl IntoView {
    view! { <q>{move || children()}</q> }
}

/// Several props of several types.
#[component]
pub fn Props(
    #[prop(optional)] a: i32,
    #[prop(optional, into)] b: String,
    #[prop(optional)] c: bool,
    #[prop(optional, into)] d: Option<String>,
    #[prop(optional)] the_long_name: i32,
    #[prop(optional)] x_1: i32,
    #[prop(optional)] r#type: i32,
    #[prop(optional, into)] class: String,
    #[prop(optional, into)] id: String,
    #[prop(optional, into)] style: String,
    #[prop(optional, into)] r#ref: String,
    #[prop(default = 'z')] ch: char,
    #[prop(default = 0.5)] fl: f64,
    #[prop(optional, into)] sig: Signal<i32>,
    #[prop(optional)] children: Option<Children>,
) -> impl IntoView {
    let mut s = format!("a={a} b={b} c={c} d={d:?} l={the_long_name} x={x_1} t={} cl={class} id={id} st={style} rf={} ch={ch} fl={fl} sg={}", r#type, r#ref, sig.get_untracked());
    view! { <p data-props=s>{children.map(|c| c())}</p> }
}

/// A prop taking a closure.
#[component]
pub fn Calls<F, T>(f: F) -> impl IntoView
where F: Fn() -> T + 'static, T: std::fmt::Display {
    format!("[{}{}]", f(), f())
}

#[component]
pub fn Each<F, V>(#[prop(optional)] n: i32, children: F) -> impl IntoView
where F: Fn(i32) -> V + Send + 'static, V: IntoView + 'static {
    let n = if n == 0 { 2 } else { n };
    view! { <ul>{(1..=n).map(|i| children(i)).collect::<Vec<_>>()}</ul> }
}

#[component]
pub fn Pair<F, V>(children: F) -> impl IntoView
where F: Fn((i32, &'static str)) -> V + Send + 'static, V: IntoView + 'static {
    view! { <ol>{children((1, "x"))}{children((2, "y"))}</ol> }
}

#[component]
pub fn Two<F, V>(children: F) -> impl IntoView
where F: Fn(i32, &'static str) -> V + Send + 'static, V: IntoView + 'static {
    view! { <dl>{children(1, "x")}{children(2, "y")}</dl> }
}

#[derive(Clone)]
pub struct Pt { pub x: i32, pub y: i32 }
#[component]
pub fn Points<F, V>(children: F) -> impl IntoView
where F: Fn(Pt) -> V + Send + 'static, V: IntoView + 'static {
    view! { <dl>{children(Pt { x: 1, y: 2 })}</dl> }
}

/// Hands over nothing.
#[component]
pub fn Nullary<F, V>(children: F) -> impl IntoView
where F: Fn() -> V + Send + 'static, V: IntoView + 'static {
    view! { <menu>{children()}{children()}</menu> }
}
#[component]
pub fn Arr<F, V>(children: F) -> impl IntoView
where F: Fn([i32; 2]) -> V + Send + 'static, V: IntoView + 'static {
    view! { <menu>{children([3, 4])}</menu> }
}
#[component]
pub fn Nested<F, V>(children: F) -> impl IntoView
where F: Fn((i32, (Pt, [i32; 2]))) -> V + Send + 'static, V: IntoView + 'static {
    view! { <menu>{children((5, (Pt { x: 6, y: 7 }, [8, 9])))}</menu> }
}
#[component]
pub fn RefTo<F, V>(children: F) -> impl IntoView
where F: Fn(&'static i32) -> V + Send + 'static, V: IntoView + 'static {
    view! { <menu>{children(&3)}</menu> }
}
#[component]
pub fn Res<F, V>(children: F) -> impl IntoView
where F: Fn(Result<i32, i32>) -> V + Send + 'static, V: IntoView + 'static {
    view! { <menu>{children(Ok(1))}{children(Err(2))}</menu> }
}

#[component]
pub fn Gen<T: 'static>(#[prop(optional)] ph: std::marker::PhantomData<T>, #[prop(optional)] children: Option<Children>) -> impl IntoView {
    let _ = ph;
    view! { <code>{std::any::type_name::<T>()}{children.map(|c| c())}</code> }
}
#[component]
pub fn GenB<T: 'static>(#[prop(optional)] ph: std::marker::PhantomData<T>) -> impl IntoView {
    let _ = ph;
    view! { <samp>{std::any::type_name::<T>()}</samp> }
}
#[component]
pub fn Slug() -> impl IntoView { view! { <q>"slug"</q> } }
#[component]
pub fn Gen2<T: 'static, U: 'static>(#[prop(optional)] ph: std::marker::PhantomData<(T, U)>) -> impl IntoView {
    let _ = ph;
    view! { <code>{std::any::type_name::<T>()}"/"{std::any::type_name::<U>()}</code> }
}

/// A component accepting slots of every kind.
#[component]
pub fn Layout(
    #[prop(optional)] head: Option<Head>,
    #[prop(optional)] item: Vec<Item>,
    #[prop(optional)] two_words: Option<TwoWords>,
    #[prop(optional)] a_b_test: Option<ABTest>,
    #[prop(optional)] outer: Option<Outer>,
    #[prop(optional)] row: Option<Row>,
    #[prop(optional)] r#type: Option<Type>,
    #[prop(optional)] n: i32,
    #[prop(optional)] children: Option<ChildrenFn>,
) -> impl IntoView {
    view! {
        <main>
            {(n != 0).then(|| view! { <var>{n}</var> })}
            {head.map(|h| view! { <header title=h.label>{h.children.map(|c| c())}</header> })}
            {item.into_iter().map(|i| view! { <li value=i.n.to_string()>{i.children.map(|c| c())}</li> }).collect::<Vec<_>>()}
            {two_words.map(|t| view! { <em>{(t.children)()}{(t.children)()}</em> })}
            {a_b_test.map(|t| view! { <s title=t.the_name>{(t.children)()}</s> })}
            {outer.map(|o| view! { <div title="outer">{o.inner.into_iter().map(|i| view! { <u title=i.label>{i.children.map(|c| c())}</u> }).collect::<Vec<_>>()}{o.head.map(|h| view! { <header title=h.label>{h.children.map(|c| c())}</header> })}{o.children.map(|c| c())}</div> })}
            {row.map(|r| view! { <tr>{(r.children.0)(1)}{(r.children.0)(2)}</tr> })}
            {r#type.map(|t| view! { <kbd>{(t.children)()}</kbd> })}
            {children.map(|c| view! { <article>{c()}</article> })}
        </main>
    }
}

#[slot]
pub struct Head { #[prop(optional, into)] pub label: String, #[prop(optional)] pub children: Option<ChildrenFn> }
#[slot]
pub struct Item { #[prop(optional)] pub n: i32, #[prop(optional)] pub children: Option<ChildrenFn> }
#[slot]
pub struct TwoWords { pub children: ChildrenFn }
#[slot]
pub struct ABTest { #[prop(optional, into)] pub the_name: String, pub children: ChildrenFn }
#[slot]
pub struct Inner { #[prop(optional, into)] pub label: String, #[prop(optional)] pub children: Option<ChildrenFn> }
#[slot]
pub struct Outer { #[prop(optional)] pub inner: Vec<Inner>, #[prop(optional)] pub head: Option<Head>, #[prop(optional)] pub children: Option<ChildrenFn> }
#[slot]
pub struct Row { #[prop(into)] pub children: RowFn }
#[slot]
pub struct Type { pub children: ChildrenFn }
#[derive(Clone)]
pub struct RowFn(pub std::sync::Arc<dyn Fn(i32) -> AnyView + Send + Sync>);
impl<F, V> From<F> for RowFn where F: Fn(i32) -> V + Send + Sync + 'static, V: IntoView + 'static {
    fn from(f: F) -> Self { RowFn(std::sync::Arc::new(move |i| f(i).into_any())) }
}

pub mod deep {
    pub mod er {
        pub use crate::{Card, Gen, Leaf, Props, Layout};
    }
    pub use crate::{Card, Gen, Leaf, Props, Layout};
}

/// Something that is not `Copy`, and whose clones can be told apart from moves
/// only by the compiler.
#[derive(Clone)]
pub struct Cl(String);
impl Cl {
    pub fn new(s: &str) -> Self { Cl(s.into()) }
    pub fn get(&self) -> String { format!("={}", self.0) }
}
impl std::fmt::Display for Cl {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.get()) }
}

// ------------------------------------------- components with any props //

/// A function component `$f` that shows which props it was given, in order: the
/// props `$m`, and the slots `$S` in the props `$s`. Written without
/// `#[component]`, which has its own opinion on names.
#[macro_export]
macro_rules! named_props {
    ($f:ident; $($m:ident)*; $($s:ident $S:ident)*) => {
        #[derive(Default)]
        pub struct NamedB(String);
        pub struct NamedP(String);
        impl NamedB {
            $(pub fn $m<T: std::fmt::Debug>(mut self, v: T) -> Self {
                self.0.push_str(&format!("{}={v:?},", stringify!($m).trim_start_matches("r#")));
                self
            })*
            $(pub fn $s(mut self, v: Vec<$S>) -> Self {
                self.0.push_str(&format!("{}=[{}],", stringify!($s).trim_start_matches("r#"), v.iter().map(|s| format!("{}.{}", stringify!($S), s.0)).collect::<Vec<_>>().join(" ")));
                self
            })*
            pub fn children(mut self, c: $crate::leptos::prelude::Children) -> Self {
                self.0.push_str(&format!("children={},", c().to_html()));
                self
            }
            pub fn build(self) -> NamedP { NamedP(self.0) }
        }
        impl $crate::leptos::component::Props for NamedP {
            type Builder = NamedB;
            fn builder() -> NamedB { NamedB::default() }
        }
        pub fn $f(p: NamedP) -> impl IntoView { p.0 }
        $(
            pub struct $S(pub String);
            impl $S {
                pub fn builder() -> $crate::SlotB<$S> { $crate::SlotB(String::new(), $S) }
            }
            impl From<$S> for Vec<$S> {
                fn from(s: $S) -> Self { vec![s] }
            }
        )*
    };
}
pub struct SlotB<S>(pub String, pub fn(String) -> S);
impl<S> SlotB<S> {
    pub fn k(mut self, v: i32) -> Self {
        self.0.push_str(&v.to_string());
        self
    }
    pub fn build(self) -> S { (self.1)(self.0) }
}

pub fn joined(v: &[&'static str]) -> &'static str { Box::leak(v.join(",").into_boxed_str()) }

/// The traits that documents need, without their names.
pub mod traits {
    pub use leptos::prelude::{
        AddAnyAttr as _, AriaAttributes as _, ClassAttribute as _, CustomAttribute as _, DirectiveAttribute as _, ElementChild as _, ElementExt as _,
        GlobalAttributes as _, GlobalOnAttributes as _, InnerHtmlAttribute as _, IntoAny as _, IntoAttribute as _, IntoView as _, NodeRefAttribute as _, OnAttribute as _,
        OnTargetAttribute as _, PropAttribute as _, RenderHtml as _, StyleAttribute as _,
    };
}
#[derive(Clone, Copy)]
pub struct ZzQ;
