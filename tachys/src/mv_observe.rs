//! NOT part of upstream tachys. Makes parts of a view that server-side
//! rendering normally leaves out (event listeners, DOM properties, directives,
//! node refs, namespaces) visible in the rendered HTML, as pseudo-attributes
//! starting with `mv-`, so that the model checker can compare them.
use std::any::Any;
use std::cell::RefCell;

/// Appends ` name="value"`, escaping the value.
pub fn attr(buf: &mut String, name: &str, value: &str) {
    buf.push(' ');
    buf.push_str(name);
    buf.push_str("=\"");
    for c in value.chars() {
        match c {
            '&' => buf.push_str("&amp;"),
            '"' => buf.push_str("&quot;"),
            '<' => buf.push_str("&lt;"),
            '>' => buf.push_str("&gt;"),
            c => buf.push(c),
        }
    }
    buf.push('"');
}

/// Shows a value of a well-known type, or else its type.
pub fn show<T: 'static>(v: &T) -> String {
    let v: &dyn Any = v;
    macro_rules! try_types {
        ($($t:ty),*) => {
            $(if let Some(x) = v.downcast_ref::<$t>() { return format!("{x:?}:{}", stringify!($t)); })*
        };
    }
    try_types!((), bool, char, i8, i16, i32, i64, isize, u8, u16, u32, u64, usize, f32, f64, &'static str, String);
    if let Some(s) = SHOW.with(|f| f.get()).and_then(|f| f(v)) {
        return s;
    }
    std::any::type_name::<T>().to_string()
}

thread_local! {
    static SHOW: std::cell::Cell<Option<fn(&dyn Any) -> Option<String>>> =
        const { std::cell::Cell::new(None) };
}

/// Sets how to show other types.
pub fn set_show(f: fn(&dyn Any) -> Option<String>) { SHOW.with(|s| s.set(Some(f))) }

thread_local! {
    static REFS: RefCell<Vec<(String, String)>> = const { RefCell::new(Vec::new()) };
}

/// Forgets all names.
pub fn forget_refs() { REFS.with(|r| r.borrow_mut().clear()) }

/// Names a reference.
pub fn register_ref(key: String, name: &str) {
    REFS.with(|r| r.borrow_mut().push((key, name.to_string())))
}

/// The name of a reference.
pub fn ref_name(key: &str) -> String {
    REFS.with(|r| {
        r.borrow().iter().find(|(k, _)| k == key).map_or_else(|| "?".to_string(), |(_, n)| n.clone())
    })
}
