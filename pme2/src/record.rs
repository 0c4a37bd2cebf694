//! NOT part of upstream proc-macro-error2.
//!
//! `entry_point` can only run inside of the compiler, as it converts to
//! `proc_macro::TokenStream`. `record` has the same protocol (dummy, error
//! storage, abort by unwinding) but hands everything back to the caller.
use std::panic::{catch_unwind, AssertUnwindSafe};

use proc_macro2::{Span, TokenStream};

use crate::{diagnostic::Level, dummy, imp, AbortNow, ENTERED_ENTRY_POINT};

/// One emitted diagnostic.
#[derive(Debug, Clone)]
pub struct Recorded {
    pub is_error: bool,
    pub message: String,
    pub first: Span,
    pub last: Span,
    pub help: Vec<String>,
}

/// Everything one macro invocation did.
#[derive(Debug)]
pub struct Outcome {
    /// What the macro returned, unless it aborted or panicked.
    pub tokens: Option<TokenStream>,
    /// What replaces the output if it aborted.
    pub dummy: Option<TokenStream>,
    pub diagnostics: Vec<Recorded>,
    pub aborted: bool,
    pub panicked: Option<String>,
}

pub fn record<F: FnOnce() -> TokenStream>(f: F) -> Outcome {
    ENTERED_ENTRY_POINT.with(|flag| flag.set(flag.get() + 1));
    let caught = catch_unwind(AssertUnwindSafe(f));
    let dummy = dummy::cleanup();
    let diagnostics = imp::cleanup()
        .into_iter()
        .map(|d| Recorded {
            is_error: d.level == Level::Error,
            message: d.msg,
            first: d.span_range.first,
            last: d.span_range.last,
            help: d.suggestions.into_iter().map(|(_, s, _)| s).collect(),
        })
        .collect();
    ENTERED_ENTRY_POINT.with(|flag| flag.set(flag.get() - 1));

    let mut out = Outcome { tokens: None, dummy, diagnostics, aborted: false, panicked: None };
    match caught {
        Ok(ts) => out.tokens = Some(ts),
        Err(boxed) => match boxed.downcast::<AbortNow>() {
            Ok(_) => out.aborted = true,
            Err(boxed) => {
                let msg = boxed
                    .downcast_ref::<&str>()
                    .map(|s| (*s).to_string())
                    .or_else(|| boxed.downcast_ref::<String>().cloned())
                    .unwrap_or_else(|| "non-string panic".to_string());
                out.panicked = Some(msg);
            }
        },
    }
    out
}
