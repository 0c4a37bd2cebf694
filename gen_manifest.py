#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
CORE = "leptos-mview-core/src/"
A, X = CORE + "ast/", CORE + "expand/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, note, technique):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, note=note, technique=technique))
REAL = "bounded exhaustive enumeration of macro inputs, each compiled with the real macro and leptos and rendered, compared with a reference model"
INPROC = "bounded exhaustive enumeration of token sequences through the real expansion code in-process"
N_REAL = "Every input in the stated spaces is expanded by /repo's macro, compiled by rustc against leptos 0.7.8 and rendered; the rendered document (with listeners, properties, directives, refs and namespaces made visible by an instrumented copy of tachys) must equal what the reference model says. Trusts rustc, leptos and the reference model; server-side rendering only; nothing is said about names, values and sizes outside of the stated alphabets and bounds."
N_IN = "Every token sequence in the stated spaces is run through the real expansion code of /repo in-process, with spans and diagnostics recorded by a patched proc-macro-error2; a share of them is run through rustc to bind the in-process view to the real compiler. Nothing is said about sequences outside of the stated alphabets and bounds."

prop("C01", "Every child is rendered exactly once, in order, inside its own parent",
     "For every tree of elements, components, strings, `{}` blocks, `[]` closures and `f[]` values, written with braces, parentheses or a terminating semicolon, of any width and depth and in any kind of parent, the rendered document contains each child exactly once, in source order, inside the parent it was written in, and nothing else.",
     ["programs"], "All macro inputs: every nesting, width and mixture of child kinds, at the root, in elements, components, and slots.",
     "The tests render a dozen fixed trees with few children; dropping, duplicating or reordering happens at particular widths, mixtures and depths.",
     [X + "subroutines.rs", CORE + "expand.rs", A + "children.rs", A + "element.rs", CORE + "lib.rs"],
     [("children are collected in order and expanded as a tuple or a chain of .child()", CORE + "expand.rs children_fragment_tokens, " + X + "subroutines.rs xml_child_methods_tokens"), ("child parsing loop", A + "children.rs Children::parse")],
     ["rendered HTML"], N_REAL, REAL)
prop("C02", "Element attributes render with the name, value and presence written",
     "On every HTML, SVG, MathML and custom element, each attribute written as `key=value`, as a bare flag, as a `{key}` shorthand or by `{..spread}` appears exactly once with the name written (kebab-case kept as it is, raw identifiers without `r#`) and the value given; `true` renders as a valueless attribute and `false` or `None` as none. This holds for every order, number and combination of attributes and in every kind of parent. (An element holds at most the 26 attributes that leptos allows.)",
     ["programs"], "All attribute names (including kebab-case with digits, keywords, repeated and leading dashes), all forms of values, all orders and combinations, all kinds of element and parent.",
     "The tests use a handful of names and forms on html elements; the name, value form and element kind decide between different expansions.",
     [X + "subroutines.rs", A + "attribute/kv.rs", A + "attribute/spread_attrs.rs", A + "ident.rs", A + "value.rs"],
     [("choice between checked methods and unchecked .attr()", X + "subroutines.rs xml_kv_attribute_tokens, AttributeKind"), ("kebab-case identifiers", A + "ident.rs KebabIdent")],
     ["rendered HTML"], N_REAL, REAL)
prop("C03", "Classes, styles and ids from all sources add up on an element",
     "An element's class list is the union of its `.selectors`, `class=` values and those `class:name=` directives whose value is true, its style declarations are all those of `style=` and `style:name=`, and its id is its `#selectors` joined by spaces. This holds for every order, number and combination, for string-literal, kebab-case, raw and shorthand names, and for every kind of element and parent. (An element holds at most the 26 attributes that leptos allows.)",
     ["programs"], "All sequences of selectors and of class and style attributes and directives.",
     "The tests try a few mixtures; sources can shadow, drop or duplicate one another in particular orders and combinations.",
     [X + "subroutines.rs", CORE + "expand.rs", A + "attribute/selector.rs", A + "attribute/directive.rs"],
     [("plain attributes before directives, ids joined", CORE + "expand.rs xml_to_tokens, " + X + "subroutines.rs xml_selectors_tokens")],
     ["rendered HTML"], N_REAL, REAL)
prop("C04", "Listeners, properties, directives and refs attach to their element as written",
     "On every element, `on:event` attaches exactly one listener for that event with the given handler, delegated unless `:undelegated` is written; `prop:name` sets exactly that property to the value; `use:directive` applies that directive with its parameter converted by `.into()` (or the unit); and `ref=` binds that reference. Shorthand, kebab-case, raw and string-literal spellings mean the same, and this holds for every event known to leptos, every order and combination. (An element holds at most the 26 attributes that leptos allows.)",
     ["programs"], "All events, all spellings, all sequences of directives, all kinds of element and parent.",
     "Server-side rendered tests cannot see listeners, properties, directives or refs at all.",
     [X + "subroutines.rs", A + "attribute/directive.rs"],
     [("directive expansion", X + "subroutines.rs xml_directive_tokens, event_listener_event_path, use_directive_fn_value")],
     ["attributes handed to the renderer, recorded by an instrumented tachys"], N_REAL, REAL)
prop("C05", "Component props, generics and paths pass through unchanged",
     "A component receives each prop written as `key=value`, as a flag or as a `{key}` shorthand under the key's name with hyphens turned into underscores, with the value given (`true` for flags), and no other props. The component called is the one named, by any path including one that starts with `::`, with exactly the generic arguments written, with or without the turbofish; this holds for every order, number and spelling of props and in every kind of parent.",
     ["programs"], "All spellings, forms of value and orders of props; all paths and generic arguments.",
     "The tests call a few components with one or two props each.",
     [X + "subroutines.rs", X + "utils.rs", CORE + "expand.rs", A + "tag.rs", A + "attribute/kv.rs", A + "ident.rs"],
     [("props become builder methods", X + "subroutines.rs component_kv_attribute_tokens"), ("path parsing and turbofish", A + "tag.rs Tag::parse, " + X + "utils.rs turbofishify")],
     ["values that components receive, as rendered"], N_REAL, REAL)
prop("C06", "Attributes written on a component reach all of its root elements",
     "Selectors, `class:`, `style:`, `attr:`, `prop:`, `on:`, `use:` and `{..spread}` written on a component are applied to every root element that it renders, in addition to the root's own attributes, with the name, value and modifier written (or `true` if there is no value). None of them reaches props or children, and this holds for every order, number, spelling and combination.",
     ["programs"], "All sequences of such attributes, all names and spellings, between props, on components with different roots and in every kind of parent.",
     "The tests cover class:, style: and ids in single examples; the remaining kinds, names and combinations take separate paths through the expansion.",
     [X + "subroutines.rs", CORE + "expand.rs", A + "attribute/directive.rs", A + "attribute/selector.rs"],
     [("directives become attribute values added to the rendered component", X + "subroutines.rs directive_to_any_attr_path, " + CORE + "expand.rs component_to_tokens")],
     ["rendered HTML and attributes handed to the renderer"], N_REAL, REAL)
prop("C07", "Component children get their arguments and clones and can be rendered again",
     "The children of a component are passed to it in order and complete, as a closure that it can call as often as its type allows; `|pattern|` binds the values the component hands over, for any closure pattern and any nesting, and `clone:name` makes the named value available inside while leaving the original usable. A component with no children written, with empty ones, or with only slots receives none.",
     ["programs"], "All argument patterns, children sequences, clone lists, nestings and attribute lists.",
     "The tests use three patterns and one clone.",
     [X + "subroutines.rs", CORE + "expand.rs", A + "element.rs"],
     [("children closure with args and clones", X + "subroutines.rs component_children_tokens, component_clone_tokens"), ("argument parsing", A + "element.rs parse_closure_args")],
     ["rendered HTML"], N_REAL, REAL)
prop("C08", "Slots fill the prop of their name, in order, apart from the children",
     "Inside a component or slot, every `slot:Name` is built with its own props, children, arguments, clones and nested slots, and passed to the parent's prop of that name in snake case: alone as itself, and several of the same name all together in source order. The remaining children keep their order and are passed as children, wherever the slots stand among them.",
     ["programs"], "All sequences of slots and children, any number, any nesting.",
     "The tests use five fixed arrangements.",
     [CORE + "expand.rs", X + "utils.rs", A + "children.rs"],
     [("grouping of slots by name", CORE + "expand.rs slots_to_tokens"), ("snake case", X + "utils.rs upper_camel_to_snake_case")],
     ["rendered HTML"], N_REAL, REAL)
prop("C09", "Each value form evaluates when, where and how often it should",
     "A literal or `{block}` is evaluated exactly once, where the view is created, and children are evaluated in source order; `[expr]` and `f[args]` become `move` closures that own what they use and evaluate nothing until they are rendered. This holds wherever a value can be written: as child, attribute, directive value, prop or slot prop, and for children of components only when the component runs them.",
     ["programs", "histories"], "All value forms in all positions, with several values interacting; histories of evaluation before and during rendering.",
     "Tests compare final output, which does not show how often or when an expression ran, nor whether a closure moves what it captures.",
     [A + "value.rs", X + "subroutines.rs", CORE + "expand.rs"],
     [("value expansion", A + "value.rs Value::to_tokens")],
     ["log of evaluations"], N_REAL, REAL)
prop("C10", "Every tag name produces the right kind of element, with the right namespace",
     "Every HTML, SVG and MathML element name that leptos defines, every name with a hyphen, and every name that starts with an ASCII capital letter is expanded as that HTML, SVG, MathML, custom element or component: it renders with the exact tag name and belongs to the right namespace (names shared by HTML and SVG being HTML). This holds alone, with selectors, attributes or children, and in every kind of parent.",
     ["programs"], "All element names known to leptos, custom element names, keywords and raw identifiers, in all positions.",
     "The tests use about fifteen names; no test uses an SVG or MathML element.",
     [A + "tag.rs", CORE + "expand.rs"],
     [("classification of tags by sorted lists and binary search", A + "tag.rs TagKind::from, is_svg_element, is_math_ml_element")],
     ["rendered HTML and namespaces"], N_REAL, REAL)
prop("C11", "Every shorthand means exactly what it abbreviates",
     "Replacing a shorthand anywhere in a document by what it stands for never changes what is rendered: `key` and `key=true`, `{key}` and `key={key}`, `dir:{key}` and `dir:key={key}`, `[e]` and `{move || e}`, `f[..]` and `[format!(..)]`, `.class` and `class:class=true`, `#id` and `id=`/`attr:id=`, parentheses and braces around children, `-` and `_` in component props, spaces within and raw spelling of names.",
     ["programs"], "All documents with all subsets of their shorthands replaced, up to a size.",
     "Tests check single examples of some shorthands, never the equivalence.",
     [A + "value.rs", A + "attribute/kv.rs", A + "attribute/directive.rs", A + "attribute/selector.rs", A + "element.rs"],
     [("desugaring in the parsers", A + "attribute/kv.rs KvAttr::parse, " + A + "attribute/directive.rs Directive::parse")],
     ["rendered HTML"], N_REAL, "exhaustive enumeration of documents and of all subsets of rewrites, both sides compiled and rendered and compared")
prop("C12", "Expansion always ends normally, with an expression or with located errors",
     "For every token sequence the macro terminates without panicking, and it either produces one well-formed Rust expression or reports at least one error. If it reports an error it still produces an expression (the unit at worst), so that the invocation never causes a follow-up syntax error.",
     ["inputs"], "All token sequences up to a length, including unbalanced constructs, macro-generated invisible groups, keywords, raw identifiers and every kind of literal.",
     "The tests only run inputs that are valid; the ui tests of errors are switched off.",
     [CORE + "lib.rs", A + "element.rs", A + "children.rs", A + "ident.rs", A + "value.rs", A + "tag.rs", X + "subroutines.rs", CORE + "error_ext.rs"],
     [("error recovery in the parsers", A + "children.rs, " + A + "element.rs"), ("dummy tokens", CORE + "lib.rs set_dummy")],
     ["expansion, diagnostics"], N_IN, INPROC)
prop("C13", "Well-formed documents are accepted and malformed ones are rejected",
     "Every document of the documented syntax expands without an error, and every input that breaks it - a missing value, an unterminated element, a stray token, a literal child that is not a string, an unknown directive, modifier or value prefix, something unsupported on elements, components or slots, a misplaced slot or argument list - is reported as an error instead of being ignored or silently dropped.",
     ["inputs"], "All token sequences up to a length, judged by an independent recogniser of the documented syntax.",
     "Only accepted inputs are tested; nothing checks that an input is rejected.",
     [A + "element.rs", A + "children.rs", A + "attribute.rs", A + "attribute/directive.rs", A + "tag.rs", A + "value.rs", CORE + "expand.rs", X + "subroutines.rs", X + "utils.rs", CORE + "lib.rs"],
     [("emit_error!/abort! at every unsupported construct", CORE + "expand.rs, " + X + "subroutines.rs"), ("parsers", A)],
     ["diagnostics"], N_IN, INPROC + ", judged by an independent recogniser")
prop("C14", "Every error points at the construct that causes it",
     "A mistake that the macro reports is reported inside the element, attribute, value or token that is wrong, and nowhere else: no error of the macro points at the whole invocation, at unrelated code or at nothing. A mistake that only the compiler finds in the expansion (an unknown name, a wrong type, a missing value) causes at least one error that points into the construct that is wrong. This holds for every kind of mistake, wherever in the document it stands and whatever surrounds it.",
     ["inputs", "programs"], "All kinds of mistakes, in all positions of all surrounding documents.",
     "The ui tests that record error locations are switched off, and cover one example each.",
     [CORE + "span.rs", CORE + "error_ext.rs", X + "subroutines.rs", CORE + "expand.rs", A + "value.rs", A + "ident.rs", A + "element.rs"],
     [("quote_spanned!/set_span on everything that can fail", X + "subroutines.rs, " + A + "value.rs"), ("spans of emitted errors", A)],
     ["diagnostics of the macro and of rustc"], N_IN, "exhaustive enumeration of mistakes x positions x surroundings; locations of the macro's and rustc's errors checked")
prop("C15", "One mistake hides neither other mistakes nor the rest of the document",
     "If a document has several independent mistakes, each of them is reported in the same run, wherever they stand: in the same construct's neighbours, in siblings, in parents and their children. The parts of the document without mistakes are still expanded, so that editor support and the compiler's own errors for them stay available. Only a directive without a proper name and a slot at the root may end the expansion, and only the rest of one list of children may be skipped after a token that no child can begin with.",
     ["inputs"], "All sets of up to three recoverable mistakes, in all positions of documents.",
     "No test has more than one mistake or looks at what is expanded beside it.",
     [A + "element.rs", A + "children.rs", A + "value.rs", CORE + "expand.rs", X + "subroutines.rs"],
     [("emit_error! and go on", A + "element.rs Element::parse, " + A + "children.rs Children::parse, " + A + "value.rs parse_or_emit_err")],
     ["diagnostics, expansion"], N_IN, "exhaustive enumeration of sets of mistakes and positions through the real expansion code")
prop("C16", "User expressions reach the expansion verbatim, with their own spans",
     "Every value, spread, closure argument and literal that the user writes appears in the expansion exactly once, and every component path, name and generic argument at least once, token for token, with the span it was written at, whatever its tokens are - including ones that are not valid Rust yet.",
     ["inputs"], "All token sequences up to a length inside of every kind of value position.",
     "No test looks at the expansion; rendering only shows values of valid expressions.",
     [A + "value.rs", A + "attribute/spread_attrs.rs", A + "element.rs", CORE + "parse.rs"],
     [("values are kept as raw token streams", A + "value.rs Value, " + CORE + "parse.rs take_rest")],
     ["expansion"], N_IN, INPROC + ", token and span inventory")
prop("C17", "Expansion depends on the input alone",
     "Expanding the same input always gives the same expansion and the same errors, in the same order, regardless of how often and after which other inputs - successful, failing or aborted - the macro has run in the same compiler process, and in which process.",
     ["histories", "inputs"], "All sequences of up to three invocations over an alphabet of inputs, in fresh and used processes.",
     "Each test expands one input once per build, in one order.",
     [CORE + "expand.rs", CORE + "lib.rs"],
     [("no state is kept; slots are grouped in order of appearance", CORE + "expand.rs slots_to_tokens")],
     ["expansion, diagnostics"], N_IN, "exhaustive enumeration of invocation histories of the real expansion code, in one and in several processes")
prop("C18", "Expansions do not depend on or leak names at the call site",
     "A document means the same in every scope: whatever items, variables, macros or modules are in scope under names that leptos or the standard library also use, and whether the invocation is written directly or produced by another macro with values passed in as expressions, literals, identifiers or types. Names that the expansion introduces for itself are never visible to user expressions, nor do user names change what it refers to.",
     ["programs", "configurations"], "All shadowing scopes from a list of names used by the expansion, for all document forms; all kinds of macro fragments in all positions.",
     "Tests only expand in a clean scope that imports leptos's prelude.",
     [CORE + "expand.rs", X + "subroutines.rs", A + "value.rs", CORE + "span.rs"],
     [("absolute `::leptos` and `::std` paths, blocks around helper variables", CORE + "expand.rs, " + X + "subroutines.rs")],
     ["rendered HTML"], N_REAL, REAL + ", under all shadowing scopes")
prop("C19", "A document renders the same as leptos's own view! macro would",
     "Every document renders the same as its counterpart written with leptos's `view!`: the same elements, attributes, classes, styles, children, component calls and slots. This holds for every combination of features that both support.",
     ["programs"], "All documents up to a size in the common part of both languages.",
     "The tests compare a few outputs with strings written by hand.",
     [CORE + "expand.rs", X + "subroutines.rs", CORE + "lib.rs"],
     [("the expansion mirrors leptos_macro's", CORE + "expand.rs")],
     ["rendered HTML of both macros"], N_REAL, "differential: exhaustive enumeration of documents, each written with mview! and with view!, compiled, rendered and compared")

prop("C20", "The compiler's warnings are the ones that the user's own code deserves",
     "Whatever a well-formed document contains, the expansion adds no compiler warnings of its own, in any edition, so that crates that deny warnings compile. Warnings that the user's own values, patterns, components and directives deserve (unused, deprecated, must-use, unreachable patterns, naming) are still reported, at their place; and what only a document uses (variables, functions, imports, components) counts as used.",
     ["programs"], "All documents of the spaces of C01 to C10; all kinds of warnings in all positions for values; all kinds of items that only a document uses.",
     "Tests only look at what is rendered; nobody reads their warnings.",
     [CORE + "expand.rs", X + "subroutines.rs", CORE + "lib.rs", CORE + "span.rs", A + "ident.rs", A + "value.rs"],
     [("`#[allow(unused_braces)]` and the like in the expansion", CORE + "lib.rs, " + X + "subroutines.rs"), ("labels instead of variables for colouring", CORE + "span.rs color_all"), ("clones keep the user's spans", X + "subroutines.rs")],
     ["rustc's warnings"], N_REAL.replace(" and rendered; the rendered document", "; the warnings").replace("the warnings (with listeners, properties, directives, refs and namespaces made visible by an instrumented copy of tachys) must equal what the reference model says", "the warnings of all default lints and ten optional ones must be none within the invocation, or exactly those that were planted") , REAL.split(",")[0] + ", each compiled with the real macro and leptos, with the warnings of rustc recorded")

prop("C21", "Documents mean the same on stable Rust and without the nightly feature",
     "Built with its default features by a stable compiler, where spans cannot be joined and errors cannot be emitted as diagnostics, the macro accepts the same documents, which render the same, with the same hygiene; and it rejects the same ones, with an error at the place of the mistake. The same holds where spans cannot be joined because the tokens are from different files.",
     ["programs", "configurations"], "The documents and mistakes of the other properties, with the other compiler and feature set.",
     "The tests are run by one compiler, the nightly one, with the nightly feature on.",
     [CORE + "span.rs", CORE + "error_ext.rs", CORE + "lib.rs", A + "ident.rs", "leptos-mview-macro/src/lib.rs"],
     [("joining spans falls back to the first", CORE + "span.rs join"), ("errors leave a dummy expression behind", CORE + "lib.rs mview_impl")],
     ["rendered HTML", "rustc's errors"], N_REAL, REAL + ", by a second compiler and with the other features")

import os, sys
here = os.path.dirname(os.path.abspath(__file__))
DONE = open(os.path.join(here, "claimed.txt")).read().split()
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "./check setup", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the checks build leptos-mview-core with a patched proc-macro-error2 (verif/pme2) and generated programs with an instrumented tachys (verif/tachys)."}
for p in P:
    if p["id"] in DONE:
        m["checks"].append({"property": p["id"], "quick_cmd": f"./check {p['id']}", "thorough_cmd": f"./check {p['id']} thorough", "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": "its check is still being built"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
