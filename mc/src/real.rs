//! Compiles generated programs with the real compiler, leptos and the real
//! `mview!`, runs them, and reports what every single case did.
use std::{
    collections::{BTreeMap, VecDeque},
    path::{Path, PathBuf},
    process::{Command, Stdio},
    sync::Mutex,
    time::{Duration, Instant},
};

/// One generated program. All strings must be free of line breaks.
#[derive(Clone, Debug, Default)]
pub struct Prog {
    /// Items in scope of the case.
    pub items: String,
    /// An expression of type `String`; its value is the observation.
    pub code: String,
}

#[derive(Clone, Debug)]
pub struct RDiag {
    pub msg: String,
    pub code: String,
    /// Byte columns (0-based, half open) of primary spans within `Prog::code`,
    /// `None` if outside of it.
    pub primary: Vec<Option<(usize, usize)>>,
}

#[derive(Clone, Debug)]
pub enum Res {
    Ok(String),
    Panic(String),
    /// The program does not compile.
    Err(Vec<RDiag>),
    /// Compiler or program crashed or hung.
    Crash(String),
    /// Compiles, with these warnings (only if lints are on).
    Warned(Vec<RDiag>),
    /// Not run, because too little time is left.
    Skipped,
}

impl Res {
    pub fn short(&self) -> String {
        match self {
            Res::Ok(s) => format!("output {s:?}"),
            Res::Panic(s) => format!("panic: {s}"),
            Res::Crash(s) => format!("crash: {s}"),
            Res::Skipped => "skipped".into(),
            Res::Warned(d) if d.is_empty() => "no warnings".into(),
            Res::Err(d) | Res::Warned(d) => format!(
                "compile {}: {}",
                if matches!(self, Res::Err(_)) { "error" } else { "warning" },
                d.iter().take(3).map(|d| format!("{}{}", if d.code.is_empty() { String::new() } else { format!("[{}] ", d.code) }, d.msg)).collect::<Vec<_>>().join(" / ")
            ),
        }
    }
}

pub struct Real {
    rustc: Vec<String>,
    edition: Mutex<String>,
    work: PathBuf,
    jobs: usize,
    deadline: Option<Instant>,
    lints: std::sync::atomic::AtomicBool,
}

/// An error of the machinery, as opposed to a verdict.
pub fn infra(msg: impl std::fmt::Display) -> ! {
    eprintln!("INFRASTRUCTURE ERROR: {msg}");
    std::process::exit(3)
}

fn find_lib(dir: &Path, name: &str) -> PathBuf {
    let mut best: Option<(std::time::SystemTime, PathBuf)> = None;
    for e in std::fs::read_dir(dir).unwrap_or_else(|e| infra(format!("{dir:?}: {e}"))).flatten() {
        let f = e.file_name().to_string_lossy().to_string();
        if f.starts_with(&format!("lib{name}-")) && (f.ends_with(".rlib")) {
            let t = e.metadata().and_then(|m| m.modified()).unwrap();
            if best.as_ref().map_or(true, |b| t > b.0) {
                best = Some((t, e.path()));
            }
        }
    }
    best.unwrap_or_else(|| infra(format!("{name} is not built"))).1
}

static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

impl Real {
    /// `rlibs`: paths given by the wrapper script as `name=path`.
    pub fn new() -> Self {
        let root = std::env::var("MC_RT").unwrap_or_else(|_| infra("MC_RT is not set"));
        let deps = Path::new(&root).join("debug/deps");
        let mut rustc = vec![];
        for a in ["-C", "debuginfo=0", "-C", "opt-level=0", "--error-format=json", "-C", "codegen-units=1", "-L"] {
            rustc.push(a.to_string());
        }
        rustc.push(format!("dependency={}", deps.display()));
        let ext = std::env::var("MC_EXTERN").unwrap_or_default();
        for name in ["mvbase", "leptos", "leptos_mview"] {
            let given = ext.split(' ').find_map(|e| e.strip_prefix(&format!("{name}=")).map(PathBuf::from));
            let p = given.unwrap_or_else(|| find_lib(&deps, name));
            rustc.push("--extern".into());
            rustc.push(format!("{name}={}", p.display()));
        }
        let base = std::env::var("MC_WORK").unwrap_or_else(|_| infra("MC_WORK is not set"));
        let work = Path::new(&base).join(format!("w{}-{}", std::process::id(), NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
        std::fs::create_dir_all(&work).unwrap();
        let jobs = std::thread::available_parallelism().map_or(8, |n| n.get());
        // programs on which the compiler hangs must not use up all the time
        let deadline = (std::env::var("VERIF_TIER").as_deref() != Ok("thorough")).then(|| Instant::now() + Duration::from_secs(600));
        Self { rustc, edition: Mutex::new("2021".into()), work, jobs, deadline, lints: false.into() }
    }

    /// Whether the time of the quick tier is over, which only happens if something hangs.
    pub fn late(&self) -> bool { self.deadline.is_some_and(|d| Instant::now() > d) }

    /// The edition of the programs from now on.
    pub fn set_edition(&self, e: &str) { *self.edition.lock().unwrap() = e.into(); }

    /// Whether programs are compiled with warnings from now on.
    pub fn set_lints(&self, on: bool) { self.lints.store(on, std::sync::atomic::Ordering::Relaxed) }
    fn lints(&self) -> bool { self.lints.load(std::sync::atomic::Ordering::Relaxed) }

    /// Items after `far:` are put in a file of their own, for their spans.
    fn source(&self, tag: &str, progs: &[(usize, Prog)], offs: &mut BTreeMap<usize, (usize, usize, usize)>) -> String {
        let lints = if self.lints() { "#![warn(unsafe_code, missing_docs, missing_debug_implementations, trivial_casts, trivial_numeric_casts, unused_lifetimes, single_use_lifetimes, elided_lifetimes_in_paths, absolute_paths_not_starting_with_crate, rust_2018_idioms)]" } else { "#![allow(warnings)]" };
        let mut s = lints.to_string();
        s.push_str(" #![recursion_limit = \"1024\"] use mvbase::*; use leptos_mview::mview;\n");
        let mut line = 1;
        for (id, p) in progs {
            line += 1;
            let items = match p.items.strip_prefix("far:") {
                Some(far) => {
                    let f = self.work.join(format!("{tag}-far{id}.rs"));
                    std::fs::write(&f, far).unwrap();
                    format!("#[macro_use] #[path = {f:?}] mod far;")
                }
                None => p.items.clone(),
            };
            let head = format!("fn c{id}() {{ {items} run({id}, || {{ ");
            assert!(!head.contains('\n'), "line break in case {p:?}");
            let more = p.code.matches('\n').count();
            offs.insert(line, (*id, head.len(), if more == 0 { head.len() + p.code.len() } else { 0 }));
            // positions are not told for these
            for _ in 0..more {
                line += 1;
                offs.insert(line, (*id, 0, 0));
            }
            s.push_str(&head);
            s.push_str(&p.code);
            s.push_str(" }) }\n");
        }
        s.push_str("fn main() { let from: usize = std::env::args().nth(1).unwrap().parse().unwrap(); init();\n");
        for (id, _) in progs {
            s.push_str(&format!("if {id} >= from {{ c{id}(); }}\n"));
        }
        s.push_str("}\n");
        s
    }

    /// Runs a command, killing it after `limit`. Output goes to files.
    fn exec(&self, cmd: &mut Command, out: &Path, limit: Duration) -> Option<(std::process::ExitStatus, String, String)> {
        let so = out.with_extension("stdout");
        let se = out.with_extension("stderr");
        let mut ch = cmd
            .stdin(Stdio::null())
            .stdout(std::fs::File::create(&so).unwrap())
            .stderr(std::fs::File::create(&se).unwrap())
            .spawn()
            .unwrap_or_else(|e| infra(format!("{cmd:?}: {e}")));
        let t0 = Instant::now();
        let st = loop {
            if let Some(s) = ch.try_wait().unwrap() {
                break Some(s);
            }
            if t0.elapsed() > limit {
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
            std::thread::sleep(Duration::from_millis(5));
        };
        let o = String::from_utf8_lossy(&std::fs::read(&so).unwrap()).to_string();
        let e = String::from_utf8_lossy(&std::fs::read(&se).unwrap()).to_string();
        st.map(|s| (s, o, e))
    }

    /// Compiles; `Ok(true)` if it compiled, `Ok(false)` with errors filed under
    /// their case, `Err` if nothing can be attributed.
    fn compile(
        &self,
        tag: &str,
        progs: &[(usize, Prog)],
        check_only: bool,
        errs: &mut BTreeMap<usize, Vec<RDiag>>,
        warns: &mut BTreeMap<usize, Vec<RDiag>>,
    ) -> Result<bool, String> {
        warns.clear();
        let mut offs = BTreeMap::new();
        let src = self.source(tag, progs, &mut offs);
        let file = self.work.join(format!("{tag}.rs"));
        std::fs::write(&file, &src).unwrap();
        let bin = self.work.join(tag);
        let mut cmd = Command::new("rustc");
        if let Some(t) = std::env::var_os("MC_TOOLCHAIN") {
            cmd.env("RUSTUP_TOOLCHAIN", t);
        }
        cmd.arg("--edition").arg(&*self.edition.lock().unwrap());
        cmd.args(&self.rustc).arg(&file).arg("-o").arg(&bin).env("RUST_MIN_STACK", "67108864").env("RUST_BACKTRACE", "0");
        cmd.args(["--crate-name", "cases", "--cap-lints", if self.lints() { "warn" } else { "allow" }]);
        if check_only {
            cmd.arg("--emit=metadata");
        }
        let limit = Duration::from_secs(30 + progs.len() as u64 / 2);
        let Some((st, _, stderr)) = self.exec(&mut cmd, &bin, limit) else {
            return Err("the compiler did not finish".into());
        };
        let fname = file.display().to_string();
        let mut found = false;
        let mut unattributed = vec![];
        for l in stderr.lines() {
            let Ok(j) = serde_json::from_str::<serde_json::Value>(l) else {
                if l.contains("panicked at") || l.contains("overflowed its stack") {
                    unattributed.push(l.to_string());
                }
                continue;
            };
            let warning = self.lints() && j["level"] == "warning" && !j["code"].is_null();
            if j["level"] != "error" && !warning {
                if j["level"].as_str().map_or(false, |l| l.contains("internal")) {
                    unattributed.push(j["message"].to_string());
                }
                continue;
            }
            let msg = j["message"].as_str().unwrap_or("").to_string();
            if msg.starts_with("aborting due to") || msg.starts_with("could not compile") {
                continue;
            }
            let mut id = None;
            let mut primary = vec![];
            for sp in j["spans"].as_array().unwrap_or(&vec![]) {
                let mut s = sp;
                // climb out of expansions to the invocation in our file
                let mut depth = 0;
                while s["file_name"] != fname.as_str() && !s["expansion"].is_null() && depth < 32 {
                    s = &s["expansion"]["span"];
                    depth += 1;
                }
                if s["file_name"] != fname.as_str() {
                    continue;
                }
                let line = s["line_start"].as_u64().unwrap_or(0) as usize;
                if let Some(&(i, from, to)) = offs.get(&line) {
                    if sp["is_primary"] == true || id.is_none() {
                        id = Some(i);
                    }
                    if sp["is_primary"] == true {
                        // columns count characters, from 1
                        let text = src.lines().nth(line - 1).unwrap_or("");
                        let byte = |col: u64| text.char_indices().nth(col as usize - 1).map_or(text.len(), |x| x.0);
                        let (a, b) = (byte(s["column_start"].as_u64().unwrap_or(1)), byte(s["column_end"].as_u64().unwrap_or(1)));
                        let same_line = s["line_end"] == s["line_start"];
                        primary.push((same_line && a >= from && b <= to).then(|| (a - from, b - from)));
                    }
                }
            }
            let d = RDiag { msg, code: j["code"]["code"].as_str().unwrap_or("").to_string(), primary };
            match id {
                _ if warning => {
                    if let Some(id) = id.filter(|_| d.primary.iter().any(|p| p.is_some())) {
                        warns.entry(id).or_default().push(d);
                    }
                }
                Some(id) => {
                    found = true;
                    errs.entry(id).or_default().push(d);
                }
                None => unattributed.push(d.msg),
            }
        }
        if st.success() {
            return Ok(true);
        }
        if found {
            return Ok(false);
        }
        Err(format!("rustc failed: {} {}", unattributed.join(" / "), if unattributed.is_empty() { stderr.lines().last().unwrap_or("").to_string() } else { String::new() }))
    }

    fn run_chunk(&self, tag: &str, mut progs: Vec<(usize, Prog)>, check_only: bool, out: &Mutex<BTreeMap<usize, Res>>) {
        let mut warns = BTreeMap::new();
        loop {
            if progs.is_empty() {
                return;
            }
            if self.late() {
                let mut o = out.lock().unwrap();
                for (id, _) in progs {
                    o.insert(id, Res::Skipped);
                }
                return;
            }
            let mut errs = BTreeMap::new();
            match self.compile(tag, &progs, check_only, &mut errs, &mut warns) {
                Ok(true) => break,
                Ok(false) => {
                    progs.retain(|(id, _)| !errs.contains_key(id));
                    let mut o = out.lock().unwrap();
                    for (id, d) in errs {
                        o.insert(id, Res::Err(d));
                    }
                }
                Err(e) => {
                    if progs.len() == 1 {
                        out.lock().unwrap().insert(progs[0].0, Res::Crash(e));
                        return;
                    }
                    let n = progs.len().div_ceil(8).max(1);
                    while !progs.is_empty() {
                        let rest = progs.split_off(n.min(progs.len()));
                        self.run_chunk(tag, std::mem::replace(&mut progs, rest), check_only, out);
                    }
                    return;
                }
            }
        }
        if check_only {
            let mut o = out.lock().unwrap();
            for (id, _) in progs {
                let r = if self.lints() { Res::Warned(warns.remove(&id).unwrap_or_default()) } else { Res::Ok(String::new()) };
                o.insert(id, r);
            }
            return;
        }
        let bin = self.work.join(tag);
        let mut todo: VecDeque<usize> = progs.iter().map(|p| p.0).collect();
        while let Some(&from) = todo.front() {
            let mut cmd = Command::new(&bin);
            cmd.arg(from.to_string());
            let r = self.exec(&mut cmd, &bin, Duration::from_secs(60));
            let text = match &r {
                Some((_, o, _)) => o.clone(),
                None => std::fs::read_to_string(bin.with_extension("stdout")).unwrap_or_default(),
            };
            let mut o = out.lock().unwrap();
            for l in text.lines() {
                let p: Vec<&str> = l.splitn(3, '\t').collect();
                if p.len() != 3 {
                    continue;
                }
                let Ok(id) = p[0].parse::<usize>() else { continue };
                if todo.front() != Some(&id) {
                    continue;
                }
                todo.pop_front();
                let v = unesc(p[2]);
                o.insert(id, if p[1] == "ok" { Res::Ok(v) } else { Res::Panic(v) });
            }
            if let Some(id) = todo.pop_front() {
                let how = r.map_or("the program did not finish".to_string(), |(st, _, e)| format!("{st}: {}", e.lines().last().unwrap_or("")));
                o.insert(id, Res::Crash(how));
            }
        }
        for e in ["", "rs", "stdout", "stderr"] {
            let _ = std::fs::remove_file(if e.is_empty() { bin.clone() } else { bin.with_extension(e) });
        }
    }

    fn batch(&self, progs: &[Prog], check_only: bool) -> Vec<Res> {
        let n = progs.len();
        if n == 0 {
            return vec![];
        }
        // dealt out in turn, so that big cases do not end up together
        let k = n.div_ceil(120).next_multiple_of(self.jobs).min(n);
        let mut chunks: Vec<Vec<(usize, Prog)>> = vec![vec![]; k];
        for (i, p) in progs.iter().cloned().enumerate() {
            chunks[i % k].push((i, p));
        }
        let queue: Mutex<VecDeque<(usize, Vec<(usize, Prog)>)>> = Mutex::new(chunks.into_iter().enumerate().collect());
        let out = Mutex::new(BTreeMap::new());
        std::thread::scope(|s| {
            for _ in 0..self.jobs {
                s.spawn(|| loop {
                    let Some((k, chunk)) = queue.lock().unwrap().pop_front() else { return };
                    self.run_chunk(&format!("k{k}"), chunk, check_only, &out);
                });
            }
        });
        let mut m = out.into_inner().unwrap();
        (0..n).map(|i| m.remove(&i).unwrap_or_else(|| infra(format!("no result for case {i}")))).collect()
    }

    /// Compiles and runs.
    pub fn run(&self, progs: &[Prog]) -> Vec<Res> { self.batch(progs, false) }

    /// Only compiles: `Ok` means that it compiles.
    pub fn check(&self, progs: &[Prog]) -> Vec<Res> { self.batch(progs, true) }
}

impl Drop for Real {
    fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.work); }
}

fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}
