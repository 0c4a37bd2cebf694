//! Bookkeeping of one check run: bounds, counts, violations, evidence.
use std::{
    cell::OnceCell,
    collections::{BTreeSet, HashSet},
    time::Instant,
};

use serde_json::{json, Value};

use crate::{
    ast::{self, Child},
    html,
    real::{Prog, Real, Res},
};

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Viol {
    /// What identifies it: normally the macro input.
    pub key: String,
    pub what: String,
    pub replay: Value,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    t0: Instant,
    pub states: u64,
    pub transitions: u64,
    pub validated: u64,
    pub samples: Vec<String>,
    pub spaces: Vec<Value>,
    pub viol: Vec<Viol>,
    outcomes: HashSet<String>,
    known: Vec<(String, String)>,
    real: OnceCell<Real>,
    verif: String,
    pub complete: bool,
    pub edition: &'static str,
    /// Documents are put here instead of being run.
    pub collect: Option<Vec<Doc>>,
    /// And other programs here.
    pub collected: Vec<(&'static str, Prog, Want)>,
}

/// One generated document.
#[derive(Clone)]
pub struct Doc {
    pub items: String,
    pub pre: String,
    pub kids: Vec<Child>,
}

pub fn doc(pre: &str, kids: Vec<Child>) -> Doc { Doc { items: String::new(), pre: pre.into(), kids } }

impl Doc {
    pub fn pre(mut self, pre: &str) -> Self {
        self.pre = pre.into();
        self
    }
    pub fn items(mut self, items: &str) -> Self {
        self.items = items.into();
        self
    }
    pub fn body(&self) -> String { ast::src(&self.kids) }
    pub fn prog(&self) -> Prog {
        Prog { items: self.items.clone(), code: format!("{} html(mview! {{ {} }})", self.pre, self.body()) }
    }
}

/// What a program must do.
#[derive(Clone)]
pub enum Want {
    /// Prints exactly this.
    Text(String),
    /// Prints HTML of this document.
    Dom(Vec<html::Dom>),
    /// Does not compile, with an error inside of this byte range of the code.
    Error(Option<(usize, usize)>),
    /// Compiles.
    Compiles,
    /// Runs, and the function has no complaint about the output; description.
    Judge(String, std::rc::Rc<dyn Fn(&str) -> Option<String>>),
    /// Does not compile, and the function has no complaint about the errors.
    Errors(String, std::rc::Rc<dyn Fn(&[crate::real::RDiag]) -> Option<String>>),
    /// Compiles, and the function has no complaint about the warnings.
    Warnings(String, std::rc::Rc<dyn Fn(&[crate::real::RDiag]) -> Option<String>>),
}

impl Ctx {
    pub fn new(id: &str, tier: Tier) -> Self {
        let verif = std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into());
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(format!("{verif}/known-findings.txt")) {
            for l in s.lines() {
                if let Some(r) = l.strip_prefix(&format!("finding: property={id} key=")) {
                    let (k, d) = r.split_once(" -- ").unwrap_or((r, ""));
                    known.push((k.to_string(), d.to_string()));
                }
            }
        }
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        Ctx {
            id: id.into(),
            tier,
            seed,
            t0: Instant::now(),
            states: 0,
            transitions: 0,
            validated: 0,
            samples: vec![],
            spaces: vec![],
            viol: vec![],
            outcomes: HashSet::new(),
            known,
            real: OnceCell::new(),
            verif,
            complete: true,
            edition: "2021",
            collect: None,
            collected: vec![],
        }
    }

    pub fn quick(&self) -> bool { self.tier == Tier::Quick }
    /// Picks a bound by tier.
    pub fn b<T>(&self, q: T, t: T) -> T { if self.quick() { q } else { t } }
    pub fn real(&self) -> &Real { self.real.get_or_init(Real::new) }

    pub fn violation(&mut self, key: &str, what: String, replay: Value) {
        self.viol.push(Viol { key: key.into(), what, replay });
    }

    pub fn space(&mut self, name: &str, bound: &str, n: u64) {
        eprintln!("[{}] {:7.1}s {name}: {n} ({bound})", self.id, self.t0.elapsed().as_secs_f64());
        self.spaces.push(json!({"space": name, "bound": bound, "explored": n}));
    }

    /// Says more about the last space.
    pub fn note(&mut self, what: String) {
        eprintln!("[{}]          {what}", self.id);
        if let Some(s) = self.spaces.last_mut() {
            s["note"] = json!(what);
        }
    }

    pub fn outcome(&mut self, s: &str) {
        if self.outcomes.len() < 2_000_000 {
            self.outcomes.insert(s.to_string());
        }
    }

    /// Runs programs on the real stack and compares with what they must do.
    pub fn progs(&mut self, name: &str, bound: &str, progs: Vec<(Prog, Want)>) {
        if self.collect.is_some() {
            self.collected.extend(progs.into_iter().map(|(p, w)| (self.edition, p, w)));
            return;
        }
        if crate::par::only().is_some() {
            return;
        }
        self.real().set_edition(self.edition);
        let mut seen = HashSet::new();
        let progs: Vec<_> = progs.into_iter().filter(|p| seen.insert(format!("{}\u{0}{}", p.0.items, p.0.code))).collect();
        let mut run = vec![];
        let mut chk = vec![];
        for (i, (_, w)) in progs.iter().enumerate() {
            match w {
                Want::Error(_) | Want::Compiles | Want::Errors(..) | Want::Warnings(..) => chk.push(i),
                _ => run.push(i),
            }
        }
        for (idx, check_only) in [(run, false), (chk, true)] {
            let ps: Vec<Prog> = idx.iter().map(|&i| progs[i].0.clone()).collect();
            self.real().set_lints(check_only && matches!(idx.first().map(|&i| &progs[i].1), Some(Want::Warnings(..))));
            let mut res = if check_only { self.real().check(&ps) } else { self.real().run(&ps) };
            for (k, &i) in idx.iter().enumerate() {
                let (p, w) = &progs[i];
                if let Res::Skipped = res[k] {
                    self.complete = false;
                    continue;
                }
                if let (Res::Crash(_), false) = (&res[k], self.real().late()) {
                    // once more, alone, and only believe it if the machinery works
                    let again = if check_only { self.real().check(&[p.clone()]) } else { self.real().run(&[p.clone()]) };
                    res[k] = again.into_iter().next().unwrap();
                    if let Res::Crash(e) = &res[k] {
                        self.real().set_lints(false);
                        let sane = self.real().run(&[Prog { items: String::new(), code: "html(mview! { br; })".into() }]);
                        if !matches!(&sane[0], Res::Ok(_)) {
                            let trivial = self.real().run(&[Prog { items: String::new(), code: "\"ok\".to_string()".into() }]);
                            if !matches!(&trivial[0], Res::Ok(_)) {
                                crate::real::infra(format!("the compiler does not work: {e} / {}", trivial[0].short()));
                            }
                        }
                    }
                }
                self.validated += 1;
                if let Some(what) = judge(&res[k], w) {
                    let replay = json!({
                        "property": self.id, "items": p.items, "code": p.code, "check_only": check_only, "edition": self.edition,
                        "want": want_json(w), "got": res[k].short(),
                    });
                    let key = if self.edition == "2021" { p.code.clone() } else { format!("[{}] {}", self.edition, p.code) };
                    self.violation(&key, what, replay);
                }
                let o = res[k].short();
                self.outcome(&o);
            }
        }
        self.states += progs.len() as u64;
        self.transitions += progs.len() as u64;
        self.space(name, bound, progs.len() as u64);
        if let Some((p, _)) = progs.get(progs.len() * 2 / 3) {
            if self.samples.len() < 12 {
                self.samples.push(format!("{name}: {}", p.code));
            }
        }
        if self.viol.len() > 200 {
            self.finish();
        }
    }

    /// Takes over the result of an in-process exploration.
    pub fn inproc(&mut self, name: &str, bound: &str, n: u64, st: crate::par::Stats, sample: &str) {
        self.states += n;
        self.transitions += n;
        self.validated += n;
        for h in &st.outcomes {
            self.outcome(&format!("{h:x}"));
        }
        self.space(name, bound, n);
        if self.samples.len() < 12 {
            self.samples.push(format!("{name}: {sample}"));
        }
        let mut found = st.found;
        found.sort_by(|a, b| (a.key.len(), &a.key).cmp(&(b.key.len(), &b.key)));
        for f in found {
            let r = json!({"property": self.id, "input": f.key, "want": f.want});
            self.violation(&f.key, f.what, r);
        }
        if self.viol.len() > 200 {
            self.finish();
        }
    }

    /// Documents against the reference model.
    pub fn docs(&mut self, name: &str, bound: &str, docs: Vec<Doc>) {
        if let Some(v) = &mut self.collect {
            v.extend(docs);
            return;
        }
        let mut t = 0;
        let progs = docs
            .iter()
            .map(|d| {
                t += ast::size(&d.kids) as u64;
                (d.prog(), Want::Dom(ast::model(&d.kids)))
            })
            .collect();
        self.transitions += t;
        self.progs(name, bound, progs);
    }

    /// Writes evidence and ends the process.
    pub fn finish(&mut self) -> ! {
        let (mut known, mut new): (Vec<&Viol>, Vec<&Viol>) = (vec![], vec![]);
        for v in &self.viol {
            if self.known.iter().any(|k| k.0 == v.key) {
                known.push(v);
            } else {
                new.push(v);
            }
        }
        let mut said = BTreeSet::new();
        for v in &known {
            if said.insert(v.key.clone()) {
                println!("KNOWN-FINDING: property={} {}", self.id, v.key);
            }
        }
        let dir = format!("{}/evidence", self.verif);
        let _ = std::fs::create_dir_all(format!("{dir}/replay"));
        let ev = json!({
            "property": self.id,
            "tier": if self.quick() { "quick" } else { "thorough" },
            "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": self.states,
                "transitions": self.transitions,
                "traces_validated_against_impl": self.validated,
                "distinct_outcomes": self.outcomes.len(),
                "exhaustive": self.complete,
                "spaces": self.spaces,
                "samples": self.samples,
            },
            "assumptions": [
                "values, names and sizes outside the stated alphabets and bounds are not explored",
                "rendered output of the real leptos (server side, with listeners, properties, directives, refs and namespaces made visible by verif/tachys) is what a user observes"
            ],
            "wall_s": (self.t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
            "violations": new.len(),
        });
        let p = format!("{dir}/{}.json", self.id);
        if let Err(e) = std::fs::write(&p, serde_json::to_string_pretty(&ev).unwrap() + "\n") {
            crate::real::infra(format!("{p}: {e}"));
        }
        let n = new.len();
        if !self.complete {
            println!("INCOMPLETE: the time for programs was over before all of them ran");
        }
        for (i, v) in new.iter().take(if std::env::var_os("MC_ALL").is_some() { usize::MAX } else { 5 }).enumerate() {
            let path = format!("{dir}/replay/{}-{}.json", self.id, i + 1);
            let mut r = v.replay.clone();
            r["what"] = json!(v.what);
            r["key"] = json!(v.key);
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap() + "\n");
            println!("  {}\n    {}", v.key, v.what);
            println!("VIOLATION property={} replay={path}", self.id);
        }
        if n > 5 {
            println!("  ... and {} more", n - 5);
        }
        println!(
            "{}: {} states, {} transitions, {} traces on the real code, {} violations, {:.1} s",
            self.id, self.states, self.transitions, self.validated, n, self.t0.elapsed().as_secs_f64()
        );
        self.real.take(); // removes scratch files
        std::process::exit(if n > 0 { 1 } else { 0 })
    }
}

pub fn judge(r: &Res, w: &Want) -> Option<String> {
    match (w, r) {
        (Want::Warnings(_, f), Res::Warned(d)) => f(d),
        (Want::Warnings(..), Res::Skipped) => None,
        (Want::Warnings(..), r) => Some(format!("must compile, but: {}", r.short())),
        (_, Res::Warned(_)) => Some("lints are on".into()),
        (Want::Compiles, Res::Ok(_)) => None,
        (Want::Compiles, r) => Some(format!("must compile, but: {}", r.short())),
        (Want::Text(t), Res::Ok(s)) => (s != t).then(|| format!("want {t:?}, got {s:?}")),
        (Want::Dom(d), Res::Ok(s)) => match html::parse(s) {
            Ok(got) => (got != *d).then(|| format!("want {}  got {}", html::show(d), html::show(&got))),
            Err(e) => Some(format!("output is not a document ({e}): {s}")),
        },
        (Want::Judge(_, f), Res::Ok(s)) => f(s),
        (Want::Errors(_, f), Res::Err(d)) => {
            if d.iter().any(|d| d.msg.contains("panicked")) {
                Some(format!("the macro panics: {}", r.short()))
            } else {
                f(d)
            }
        }
        (_, Res::Skipped) => None,
        (Want::Errors(..), Res::Crash(e)) => Some(format!("crash: {e}")),
        (Want::Errors(..), _) => Some("must not compile, but does".into()),
        (Want::Text(_) | Want::Dom(_) | Want::Judge(..), r) => Some(r.short()),
        (Want::Error(_), Res::Ok(_) | Res::Panic(_)) => Some("must not compile, but does".into()),
        (Want::Error(_), Res::Crash(e)) => Some(format!("crash: {e}")),
        (Want::Error(None), Res::Err(_)) => None,
        (Want::Error(Some((a, b))), Res::Err(ds)) => {
            let inside = |r: &Option<(usize, usize)>| r.map_or(false, |(s, e)| s >= *a && e <= *b);
            if ds.iter().any(|d| d.msg.contains("panicked")) {
                Some(format!("the macro panics: {}", r.short()))
            } else if ds.iter().any(|d| d.primary.iter().any(inside)) {
                None
            } else {
                Some(format!(
                    "no error points into {a}..{b}: {}",
                    ds.iter().map(|d| format!("{} at {:?}", d.msg, d.primary)).collect::<Vec<_>>().join(" / ")
                ))
            }
        }
    }
}

fn want_json(w: &Want) -> Value {
    match w {
        Want::Text(t) => json!({"text": t}),
        Want::Dom(d) => json!({"dom": html::show(d)}),
        Want::Error(r) => json!({"error_within": r.map(|r| vec![r.0, r.1])}),
        Want::Compiles => json!("compiles"),
        Want::Judge(d, _) => json!({"output": d}),
        Want::Errors(d, _) => json!({"errors": d}),
        Want::Warnings(d, _) => json!({"warnings": d}),
    }
}
