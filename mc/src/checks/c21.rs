//! The same on stable Rust, with the default features.
use super::*;
use crate::{
    ctx::{Doc, Tier, Want},
    real::Prog,
};
use std::rc::Rc;

type Run = fn(&mut Ctx);

fn collect(id: &str, f: Run) -> Ctx {
    let mut sub = Ctx::new(id, Tier::Quick);
    sub.collect = Some(vec![]);
    f(&mut sub);
    sub
}

pub fn run(c: &mut Ctx) {
    let all: [(&str, Run, usize); 9] = [("C01", c01::run, 8), ("C02", c02::run, 8), ("C03", c03::run, 4), ("C04", c04::run, 4), ("C05", c05::run, 3), ("C06", c06::run, 6), ("C07", c07::run, 5), ("C08", c08::run, 5), ("C10", c10::run, 8)];
    for (id, f, part) in all {
        let part = c.b(part, 1);
        let docs: Vec<Doc> = collect(id, f).collect.unwrap().into_iter().step_by(part).collect();
        c.docs(&format!("documents of {id}"), &format!("every {part}th document that its quick check explores"), docs);
    }
    let all: [(&str, Run, usize); 5] = [("C07", c07::run, 8), ("C09", c09::run, 6), ("C11", c11::run, 12), ("C14", c14::real, 8), ("C18", c18::run, 4)];
    for (id, f, part) in all {
        let part = c.b(part, 1);
        let mut sub = collect(id, f).collected;
        // these have several tokens, of which only the first is pointed at
        sub.retain(|p| id != "C14" || !p.1.code.contains("{..1}"));
        for ed in ["2015", "2018", "2021", "2024"] {
            let progs: Vec<_> = sub.iter().filter(|p| p.0 == ed).step_by(part).map(|(_, p, w)| (p.clone(), w.clone())).collect();
            if !progs.is_empty() {
                c.edition = ed;
                c.progs(&format!("programs of {id}, edition {ed}"), &format!("every {part}th program that its quick check explores"), progs);
            }
        }
        c.edition = "2021";
        sub.clear();
    }

    // mistakes
    let mut progs = vec![];
    for (class, t) in c14::mistaken().into_iter().step_by(c.b(9, 1)) {
        for (wc, w) in c14::WHERE.iter().take(c.b(4, 9)) {
            if !class.contains(wc) {
                continue;
            }
            let t = w.replace('$', &t);
            if c14::is_attribute(&t) {
                continue;
            }
            let m = c14::unmark(&t);
            let off = "html(mview! { ".len();
            let code = format!("html(mview! {{ {} }})", m.text);
            let shown = m.text.clone();
            progs.push((
                Prog { items: String::new(), code },
                Want::Errors(
                    format!("an error in {:?}", &m.text[m.culprit.0..m.culprit.1]),
                    Rc::new(move |ds| {
                        let hit = ds.iter().any(|d| d.primary.iter().flatten().any(|p| p.0 >= m.wide.0 + off && p.1 <= m.wide.1 + off));
                        (!hit).then(|| format!("no error at {:?}, but {}", &shown[m.wide.0..m.wide.1], ds.iter().map(|d| format!("{:?} at {:?}", d.msg, d.primary)).collect::<Vec<_>>().join(", ")))
                    }),
                ),
            ));
        }
    }
    c.progs("mistakes", "every ninth (every) mistake in 4 (9) places: rejected, with an error at the mistake", progs);
}
