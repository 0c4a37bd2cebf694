//! Only here to build the macro of /repo for the generated programs.
pub use leptos_mview::mview;
