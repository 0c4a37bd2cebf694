//! The observed document: parses rendered HTML into a canonical tree.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Dom {
    El(Box<El>),
    Text(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct El {
    pub tag: String,
    pub ns: String,
    pub attrs: Vec<(String, Option<String>)>,
    pub classes: BTreeSet<String>,
    pub styles: BTreeMap<String, Vec<String>>,
    /// Things that plain HTML does not show: listeners, properties, directives.
    pub extra: Vec<String>,
    pub kids: Vec<Dom>,
}

const VOID: &[&str] = &[
    "area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr",
];

fn unescape(s: &str) -> String {
    s.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&#x27;", "'").replace("&#39;", "'").replace("&amp;", "&")
}

/// Merges neighbouring text, removes empty text, sorts what has no order.
pub fn canon(kids: Vec<Dom>) -> Vec<Dom> {
    let mut out: Vec<Dom> = vec![];
    for k in kids {
        match k {
            Dom::Text(t) => {
                if t.is_empty() {
                    continue;
                }
                if let Some(Dom::Text(p)) = out.last_mut() {
                    p.push_str(&t);
                } else {
                    out.push(Dom::Text(t));
                }
            }
            Dom::El(mut e) => {
                // (a browser only looks at the first attribute of a name)
                let mut seen = BTreeSet::new();
                for (n, _) in &mut e.attrs {
                    if !n.starts_with("duplicate ") && !seen.insert(n.clone()) {
                        *n = format!("duplicate {n}");
                    }
                }
                e.attrs.sort();
                e.extra.sort();
                e.kids = canon(std::mem::take(&mut e.kids));
                out.push(Dom::El(e));
            }
        }
    }
    out
}

fn last_seg(ty: &str) -> String {
    let ty = ty.split('<').next().unwrap_or(ty);
    if ty.contains("{{closure}}") {
        return "{closure}".into();
    }
    ty.rsplit("::").next().unwrap_or(ty).to_string()
}

pub fn add_style(styles: &mut BTreeMap<String, Vec<String>>, decls: &str) {
    for d in decls.split(';') {
        if let Some((k, v)) = d.split_once(':') {
            styles.entry(k.trim().to_string()).or_default().push(v.trim().to_string());
        } else if !d.trim().is_empty() {
            styles.entry(d.trim().to_string()).or_default().push(String::new());
        }
    }
}

pub fn parse(s: &str) -> Result<Vec<Dom>, String> {
    let mut stack: Vec<(El, Vec<Dom>)> = vec![];
    let mut cur: Vec<Dom> = vec![];
    let mut rest = s;
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix("<!--") {
            let i = r.find("-->").ok_or("unclosed comment")?;
            rest = &r[i + 3..];
        } else if let Some(r) = rest.strip_prefix("<!>") {
            rest = r;
        } else if let Some(r) = rest.strip_prefix("<!") {
            // doctype
            let i = r.find('>').ok_or("unclosed doctype")?;
            rest = &r[i + 1..];
        } else if let Some(r) = rest.strip_prefix("</") {
            let i = r.find('>').ok_or("unclosed tag")?;
            let name = &r[..i];
            let (mut el, mut outer) = stack.pop().ok_or_else(|| format!("stray </{name}>"))?;
            if el.tag != name {
                return Err(format!("<{}> closed by </{name}>", el.tag));
            }
            el.kids = std::mem::take(&mut cur);
            outer.push(Dom::El(Box::new(el)));
            cur = outer;
            rest = &r[i + 1..];
        } else if let Some(r) = rest.strip_prefix('<') {
            let (el, closed, after) = parse_tag(r)?;
            rest = after;
            if closed || (VOID.contains(&el.tag.as_str()) && el.ns.is_empty()) {
                cur.push(Dom::El(Box::new(el)));
            } else {
                stack.push((el, std::mem::take(&mut cur)));
            }
        } else {
            let i = rest.find('<').unwrap_or(rest.len());
            cur.push(Dom::Text(unescape(&rest[..i])));
            rest = &rest[i..];
        }
    }
    if let Some((el, _)) = stack.last() {
        return Err(format!("<{}> is not closed", el.tag));
    }
    Ok(canon(cur))
}

fn parse_tag(r: &str) -> Result<(El, bool, &str), String> {
    let mut el = El::default();
    let mut seen = BTreeSet::new();
    let end = r.find(|c: char| c.is_whitespace() || c == '>' || c == '/').ok_or("unclosed tag")?;
    el.tag = r[..end].to_string();
    let mut rest = &r[end..];
    loop {
        rest = rest.trim_start();
        if let Some(a) = rest.strip_prefix("/>") {
            return Ok((el, true, a));
        }
        if let Some(a) = rest.strip_prefix('>') {
            return Ok((el, false, a));
        }
        if rest.is_empty() {
            return Err("unclosed tag".into());
        }
        let e = rest
            .find(|c: char| c.is_whitespace() || c == '=' || c == '>')
            .ok_or("unclosed attribute")?;
        let name = rest[..e].to_string();
        rest = &rest[e..];
        let mut val = None;
        if let Some(a) = rest.strip_prefix("=\"") {
            let q = a.find('"').ok_or("unclosed value")?;
            val = Some(unescape(&a[..q]));
            rest = &a[q + 1..];
        } else if let Some(a) = rest.strip_prefix('=') {
            let q = a.find(|c: char| c.is_whitespace() || c == '>').ok_or("unclosed value")?;
            val = Some(unescape(&a[..q]));
            rest = &a[q..];
        }
        let v = val.clone().unwrap_or_default();
        // a browser only looks at the first attribute of a name
        if !name.starts_with("mv-") && !seen.insert(name.clone()) {
            el.attrs.push((format!("duplicate {name}"), val));
            continue;
        }
        match name.as_str() {
            "class" => el.classes.extend(v.split_whitespace().map(str::to_string)),
            "style" => add_style(&mut el.styles, &v),
            "mv-ns" => {
                el.ns = match v.as_str() {
                    "http://www.w3.org/2000/svg" => "svg".into(),
                    "http://www.w3.org/1998/Math/MathML" => "math".into(),
                    o => o.into(),
                }
            }
            "mv-on" => {
                let p: Vec<&str> = v.splitn(3, '|').collect();
                let u = if p[1].contains("Undelegated") { ":undelegated" } else { "" };
                el.extra.push(format!("on:{}{}={}", p[0], u, last_seg(p[2])));
            }
            "mv-use" => {
                let p: Vec<&str> = v.splitn(2, '|').collect();
                el.extra.push(format!("use:{}={}", last_seg(p[0]), p[1]));
            }
            "mv-prop" => {
                let p: Vec<&str> = v.splitn(2, '|').collect();
                el.extra.push(format!("prop:{}={}", p[0], p[1]));
            }
            "mv-ref" => el.extra.push(format!("ref={v}")),
            _ => el.attrs.push((name, val)),
        }
    }
}

pub fn show(d: &[Dom]) -> String {
    let mut s = String::new();
    for n in d {
        match n {
            Dom::Text(t) => s.push_str(&format!("{t:?}")),
            Dom::El(e) => {
                s.push_str(&format!("<{}", e.tag));
                if !e.ns.is_empty() {
                    s.push_str(&format!(" @{}", e.ns));
                }
                for (k, v) in &e.attrs {
                    match v {
                        Some(v) => s.push_str(&format!(" {k}={v:?}")),
                        None => s.push_str(&format!(" {k}")),
                    }
                }
                if !e.classes.is_empty() {
                    s.push_str(&format!(" class={:?}", e.classes.iter().cloned().collect::<Vec<_>>().join(" ")));
                }
                if !e.styles.is_empty() {
                    s.push_str(&format!(" style={:?}", e.styles.iter().flat_map(|(k, v)| v.iter().map(move |v| format!("{k}:{v}"))).collect::<Vec<_>>().join(";")));
                }
                for x in &e.extra {
                    s.push_str(&format!(" [{x}]"));
                }
                s.push('>');
                s.push_str(&show(&e.kids));
                s.push_str(&format!("</{}>", e.tag));
            }
        }
    }
    s
}
