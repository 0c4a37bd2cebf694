#!/usr/bin/env python3
"""Regenerates src/tables.rs: the names that leptos (tachys) knows."""
import re, os
T = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tachys", "src")
def rd(p):
    s = open(os.path.join(T, p)).read()
    return re.sub(r"//[^\n]*", "", s)
def unraw(s): return s.replace("r#", "")
out = ["//! Generated by gen_tables.py from tachys: the names that leptos knows.\n"]
def table(name, ty, rows):
    out.append(f"pub const {name}: &[{ty}] = &[\n" + "".join(f"    {r},\n" for r in rows) + "];\n")
q = lambda s: '"%s"' % s
# html elements
s = rd("html/element/elements.rs")
rows = []
for m in re.finditer(r"html_(self_closing_)?elements! \{(.*?)\n\}", s, re.S):
    for e in re.finditer(r"([\w#]+)\s+Html\w*\s*\[([^\]]*)\]\s*(true|false)", m.group(2)):
        attrs = [unraw(a.strip()) for a in e.group(2).split(",") if a.strip()]
        rows.append((unraw(e.group(1)), bool(m.group(1)), attrs))
# the two with their own definitions
for t in re.findall(r"pub fn ([\w#]+)\(\) -> HtmlElement", s):
    if unraw(t) not in [r[0] for r in rows]: rows.append((unraw(t), False, []))
table("HTML", "(&str, bool, &[&str])", [f'({q(t)}, {str(v).lower()}, &[{", ".join(q(a) for a in at)}])' for t, v, at in rows])
s = rd("svg/mod.rs")
m = re.search(r"svg_elements!\[(.*?)\n\];", s, re.S).group(1)
table("SVG", "&str", [q(unraw(e)) for e in re.findall(r"([\w#]+)\s*\[", m)] + [q("use")])
s = rd("mathml/mod.rs")
m = re.search(r"mathml_elements!\[(.*?)\n\];", s, re.S).group(1)
table("MATH", "(&str, &[&str])", ["(%s, &[%s])" % (q(t), ", ".join(q(unraw(a.strip())) for a in at.split(",") if a.strip())) for t, at in re.findall(r"([\w#]+)\s*\[([^\]]*)\]", m)])
s = rd("html/attribute/key.rs")
m = s[s.index("\nattributes! {"):]
keys = [(unraw(a), b) for a, b in re.findall(r'([\w#]+)\s+"([^"]+)",', m)]
table("ATTRS", "(&str, &str)", [f"({q(a)}, {q(b)})" for a, b in keys])
g = rd("html/attribute/global.rs")
m = re.search(r"pub trait GlobalAttributes<V>(.*?)\n\}", g, re.S).group(1)
table("GLOBAL", "&str", [q(unraw(a)) for a in re.findall(r"fn ([\w#]+)\(", m)])
table("ONATTRS", "&str", [q(b) for _, b in re.findall(r'(\w+)\s+"(on\w+)",', g[g.index("pub trait GlobalOnAttributes"):])])
m = rd("html/attribute/aria.rs")
table("ARIA", "&str", [q(a) for a in re.findall(r"fn (aria_\w+)\(", m)])
s = rd("html/event.rs")
m = re.search(r"\ngenerate_event_types! \{(.*?)\n\}", s, re.S).group(1)
m = re.sub(r"#\[\w+\]", "", m)
table("EVENTS", "(&str, &str)", ["(%s, %s)" % (q(n.replace(" ", "")), q(t)) for n, t in re.findall(r"([a-zA-Z ]+?)\s*:\s*(\w+)", m) for n in [n.strip()]])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "src", "tables.rs"), "w").write("\n".join(out))
