mod ast;
mod checks;
mod ctx;
mod expand;
mod html;
mod par;
mod real;
mod tables;

use ctx::{Ctx, Tier};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    if a.get(1).map(String::as_str) == Some("replay") {
        return checks::replay(&a[2]);
    }
    if a.get(1).map(String::as_str) == Some("try") {
        return checks::try_lines();
    }
    if a.get(1).map(String::as_str) == Some("dump") {
        return checks::c17::dump();
    }
    let Some(id) = a.get(1) else { real::infra("usage: mc <property> | mc replay <file>") };
    if std::env::var("MC_CHILD").is_err() && id.starts_with('C') {
        return supervise(&a, id);
    }
    // deep inputs need deep stacks
    let id = id.clone();
    std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            let mut c = Ctx::new(&id, tier);
            checks::run(&id, &mut c);
            c.finish()
        })
        .unwrap()
        .join()
        .unwrap_or_else(|_| real::infra("the explorer panicked"));
}

/// Runs the check in a child, so that input that kills it can be told.
fn supervise(a: &[String], id: &str) {
    use std::{os::unix::process::CommandExt, process::Command};
    let work = std::env::var("MC_WORK").unwrap_or_else(|_| "/tmp".into());
    let busy = format!("{work}/busy");
    let child = |only: Option<String>| {
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.args(&a[1..]).env("MC_CHILD", "1");
        match only {
            Some(o) => c.env("MC_ONLY", o).stderr(std::process::Stdio::null()),
            None => c.env("MC_BUSY", &busy),
        };
        unsafe {
            // no child outlives its parent
            c.pre_exec(|| {
                extern "C" {
                    fn prctl(op: i32, a: u64) -> i32;
                }
                prctl(1, 9);
                Ok(())
            });
        }
        c
    };
    let st = child(None).status().unwrap_or_else(|e| real::infra(format!("{e}")));
    if let Some(code) = st.code() {
        std::process::exit(code);
    }
    for (space, i) in par::busy(&busy) {
        let o = child(Some(format!("{space}:{i}"))).output().unwrap_or_else(|e| real::infra(format!("{e}")));
        if o.status.code().is_none() {
            let out = String::from_utf8_lossy(&o.stdout).to_string();
            let key = out.lines().rev().find_map(|l| l.strip_prefix("CASE ")).unwrap_or("?").to_string();
            let dir = format!("{}/evidence/replay", std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()));
            let _ = std::fs::create_dir_all(&dir);
            let p = format!("{dir}/{id}-crash.json");
            let _ = std::fs::write(&p, serde_json::json!({"property": id, "what": "the expansion kills the compiler", "input": key, "want": "ends"}).to_string());
            println!("  {key}\n    the expansion kills the compiler: {}", o.status);
            println!("VIOLATION property={id} replay={p}");
            std::process::exit(1);
        }
    }
    real::infra(format!("the explorer died: {st}"))
}
