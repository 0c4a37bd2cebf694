//! Runs the real macro implementation of /repo in this process.
use std::cell::Cell;

use proc_macro2::{Delimiter, LineColumn, Span, TokenStream, TokenTree};
use proc_macro_error2::record::{record, Outcome};

thread_local! { static CALLS: Cell<u32> = const { Cell::new(0) }; }

/// Forgets all source text seen by this thread once in a while: every parsed
/// string stays in proc-macro2's source map otherwise. Only call when no span
/// is alive.
pub fn tick() {
    CALLS.with(|c| {
        c.set(c.get() + 1);
        if c.get() % 2000 == 0 {
            proc_macro2::extra::invalidate_current_thread_spans();
        }
    });
}

pub fn silence_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

pub fn expand_ts(ts: TokenStream) -> Outcome {
    record(|| leptos_mview_core::mview_impl(ts))
}

/// A diagnostic reduced to plain data.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Diag {
    pub msg: String,
    pub help: Vec<String>,
    /// (line, column) of the start and the end; `None` for the call site.
    pub at: Option<((usize, usize), (usize, usize))>,
}

/// What one expansion did, as plain data.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Exp {
    pub tokens: Option<String>,
    pub dummy: Option<String>,
    pub diags: Vec<Diag>,
    pub aborted: bool,
    pub panicked: Option<String>,
    /// The output contains `compile_error!`.
    pub compile_error: bool,
}

impl Exp {
    pub fn accepted(&self) -> bool {
        self.tokens.is_some() && self.diags.is_empty() && !self.compile_error
    }
}

fn lc(l: LineColumn) -> (usize, usize) { (l.line, l.column) }

pub fn range(first: Span, last: Span) -> Option<((usize, usize), (usize, usize))> {
    let (s, e) = (lc(first.start()), lc(last.end()));
    // the fallback call site is line 1, column 0..0; real tokens are never empty
    if s == e { None } else { Some((s, e)) }
}

pub fn has_compile_error(ts: &TokenStream) -> bool {
    ts.clone().into_iter().any(|t| match t {
        TokenTree::Ident(i) => i == "compile_error",
        TokenTree::Group(g) => has_compile_error(&g.stream()),
        _ => false,
    })
}

/// Locations of `compile_error!` invocations in the output.
pub fn compile_error_spans(ts: &TokenStream, out: &mut Vec<Span>) {
    for t in ts.clone() {
        match t {
            TokenTree::Ident(i) if i == "compile_error" => out.push(i.span()),
            TokenTree::Group(g) => compile_error_spans(&g.stream(), out),
            _ => {}
        }
    }
}

pub fn plain(o: &Outcome) -> Exp {
    let mut diags: Vec<Diag> = o
        .diagnostics
        .iter()
        .filter(|d| d.is_error)
        .map(|d| Diag { msg: d.message.clone(), help: d.help.clone(), at: range(d.first, d.last) })
        .collect();
    let mut ce = false;
    if let Some(ts) = &o.tokens {
        if has_compile_error(ts) {
            ce = true;
            let mut spans = vec![];
            compile_error_spans(ts, &mut spans);
            for s in spans {
                diags.push(Diag { msg: "compile_error!".into(), help: vec![], at: range(s, s) });
            }
        }
    }
    Exp {
        tokens: o.tokens.as_ref().map(render),
        dummy: o.dummy.as_ref().map(render),
        diags,
        aborted: o.aborted,
        panicked: o.panicked.clone(),
        compile_error: ce,
    }
}

/// Expands source text.
pub fn expand(src: &str) -> Exp {
    let ts: TokenStream = match src.parse() {
        Ok(t) => t,
        Err(e) => panic!("generated input does not lex: {src:?}: {e}"),
    };
    let e = plain(&expand_ts(ts));
    tick();
    e
}

/// Like `TokenStream::to_string`, but shows every delimiter and spacing.
pub fn render(ts: &TokenStream) -> String {
    fn go(ts: TokenStream, out: &mut String) {
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::None => ("⟪", "⟫"),
                    };
                    out.push_str(o);
                    out.push(' ');
                    go(g.stream(), out);
                    out.push_str(c);
                    out.push(' ');
                }
                TokenTree::Punct(p) => {
                    out.push(p.as_char());
                    if p.spacing() == proc_macro2::Spacing::Alone {
                        out.push(' ');
                    }
                }
                t => {
                    out.push_str(&t.to_string());
                    out.push(' ');
                }
            }
        }
    }
    let mut s = String::new();
    go(ts.clone(), &mut s);
    s
}

/// Whether an expansion is one well-formed Rust expression.
pub fn is_expr(ts: TokenStream) -> bool { syn::parse2::<syn::Expr>(ts).is_ok() }

/// The environment of the macro, under control: what it asks for is noted, and
/// answered as wanted.
pub mod env {
    use std::{
        cell::{Cell, RefCell},
        ffi::{c_char, CStr, CString},
    };

    thread_local! {
        static WATCHED: Cell<bool> = const { Cell::new(false) };
        static ASKED: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
        static ANSWER: RefCell<Option<(CString, CString)>> = const { RefCell::new(None) };
    }

    extern "C" {
        static environ: *const *const c_char;
    }

    /// In place of libc's.
    ///
    /// # Safety
    /// As that of libc.
    #[no_mangle]
    pub unsafe extern "C" fn getenv(name: *const c_char) -> *const c_char {
        let name = CStr::from_ptr(name);
        if WATCHED.try_with(Cell::get).unwrap_or(false) {
            WATCHED.set(false);
            ASKED.with_borrow_mut(|a| a.push(name.to_string_lossy().into_owned()));
            let answer = ANSWER.with_borrow(|a| a.as_ref().filter(|(n, _)| **n == *name).map(|(_, v)| v.as_ptr()));
            WATCHED.set(true);
            if let Some(a) = answer {
                return a;
            }
        }
        let n = name.to_bytes();
        let mut p = environ;
        while !p.is_null() && !(*p).is_null() {
            let e = CStr::from_ptr(*p).to_bytes();
            if e.len() > n.len() && e[n.len()] == b'=' && &e[..n.len()] == n {
                return (*p).add(n.len() + 1);
            }
            p = p.add(1);
        }
        std::ptr::null()
    }

    /// Runs `f` with a variable set as told, and tells what it asked for.
    pub fn with<T>(answer: Option<(&str, &str)>, f: impl FnOnce() -> T) -> (T, Vec<String>) {
        ANSWER.with_borrow_mut(|a| *a = answer.map(|(n, v)| (CString::new(n).unwrap(), CString::new(v).unwrap())));
        ASKED.with_borrow_mut(Vec::clear);
        WATCHED.set(true);
        let r = f();
        WATCHED.set(false);
        (r, ASKED.with_borrow_mut(std::mem::take))
    }
}
