use crate::oracle;
use crate::proj::*;
use crate::tgen::*;
use config::Mode;
use std::cell::RefCell;
use vpcore::*;
use zuban_python::Project;

thread_local! {
    static CACHE: RefCell<Vec<(Mode, Project, u32)>> = const { RefCell::new(Vec::new()) };
}

pub const ROOT: &str = "/nonexistent-vp/types";

/// Checks a module alone. Projects are reused, as making one is slow; what is found with a used
/// project has to be found with a new one.
pub fn check(mode: Mode, code: &str, fresh: bool) -> Vec<Diag> {
    if fresh {
        let mut p = project(options(mode, ROOT));
        let f = path(&p, &format!("{ROOT}/m.py"));
        p.store_in_memory_file(f.clone(), code.into());
        return diags(&mut p, &f).expect("the document exists");
    }
    CACHE.with(|c| {
        let mut slot = c.borrow_mut();
        let at = slot.iter().position(|x| x.0 == mode);
        let (m, mut p, n) = match at {
            Some(i) => slot.swap_remove(i),
            None => (mode, project(options(mode, ROOT)), 0),
        };
        let f = path(&p, &format!("{ROOT}/m.py"));
        p.store_in_memory_file(f.clone(), code.into());
        let r = diags(&mut p, &f).expect("the document exists");
        if n < 200 {
            slot.push((m, p, n + 1));
        }
        r
    })
}

pub fn gen_program(s: &mut Src, budget: i32) -> String {
    let n = s.range(1, 6);
    let mut g = TG::new(s, budget, "");
    g.program(n);
    format!("{PRELUDE}{}", g.out)
}

pub fn t01(s: &mut Src, ctx: &mut Ctx) -> R {
    let b = s.range(4, 24) as i32;
    let code = gen_program(s, b);
    judge(&code, ctx)
}

pub fn judge(code: &str, ctx: &mut Ctx) -> R {
    ctx.note("code", code.strip_prefix(PRELUDE).unwrap_or(code));
    let r = judge_with(code, ctx, false);
    if r.is_err() { judge_with(code, ctx, true) } else { r }
}

fn judge_with(code: &str, ctx: &mut Ctx, fresh: bool) -> R {
    let ds = check(Mode::Default, code, fresh);
    let mut reveals = serde_json::Map::new();
    for d in &ds {
        if let Some(t) = d.text.strip_prefix("Revealed type is \"") {
            reveals.insert(d.line.to_string(), t.strip_suffix('"').unwrap().into());
        } else if d.kind == "error" && d.code != "unreachable" {
            if std::env::var("VP_SHOW").is_ok() {
                eprintln!("{}: {}\n    {}", d.line, d.text, code.lines().nth(d.line - 1).unwrap());
            }
            ctx.class("zuban reports an error, so nothing is claimed");
            ctx.class(&format!("error: {}", d.code));
            return Ok(());
        }
    }
    if fresh {
        ctx.note("revealed", render(&ds));
    }
    let Some(r) = oracle::ask("run", &serde_json::json!({"code": code, "reveals": reveals})) else {
        ctx.class("the reference crashed");
        return Ok(());
    };
    let end = r["end"].as_str().unwrap();
    if end == "timeout" || end == "resource" {
        ctx.class("ran out of time or memory");
        return Ok(());
    }
    ctx.class(&format!("ends: {}", end.split(':').next().unwrap()));
    ctx.count("values", r["values"].as_u64().unwrap());
    for (t, n) in r["unknown"].as_object().unwrap() {
        ctx.count(&format!("not judged: {}", clip(t, 20)), n.as_u64().unwrap());
    }
    ensure!(!end.starts_with("syntax"), "syntax", "CPython rejects it: {end}");
    for k in ["TypeError", "AttributeError", "NameError", "UnboundLocalError"] {
        ensure!(!end.starts_with(k), format!("raises-{k}"), "no error is reported, and it raises {end}");
    }
    for b in r["bad"].as_array().unwrap() {
        let l = b[0].as_u64().unwrap();
        let text = code.lines().nth(l as usize - 1).unwrap_or("");
        // The programs of known findings say which one they are.
        let sig = match code.strip_prefix("# known: ").and_then(|c| c.lines().next()) {
            Some(name) => name,
            None if b[1] == "MISSING" => "executed-but-unreachable",
            None => "wrong-type",
        };
        fail!(sig, "line {l} `{}`: {} {}", text.trim(), b[1], b[2]);
    }
    if r["seen"].as_u64().unwrap() >= 3 {
        ctx.nontrivial(code.strip_prefix(PRELUDE).unwrap_or(code));
    }
    Ok(())
}

pub fn t02(s: &mut Src, ctx: &mut Ctx) -> R {
    let b = s.range(4, 24) as i32;
    let code = gen_program(s, b);
    accepts(&code, ctx)
}

pub fn accepts(code: &str, ctx: &mut Ctx) -> R {
    ctx.note("code", code.strip_prefix(PRELUDE).unwrap_or(code));
    for fresh in [false, true] {
        let ds = check(Mode::Default, code, fresh);
        let Some(d) = ds.iter().find(|d| d.kind == "error" && d.code != "unreachable") else {
            ctx.count("reveal_type", ds.len() as u64);
            if ds.len() >= 3 {
                ctx.nontrivial(code.strip_prefix(PRELUDE).unwrap_or(code));
            }
            return Ok(());
        };
        if fresh {
            let name = code.strip_prefix("# known: ").and_then(|c| c.lines().next());
            let sig = name.map(|n| n.to_string()).unwrap_or(format!("error-{}", d.code));
            fail!(sig, "line {} `{}`: {}", d.line, code.lines().nth(d.line - 1).unwrap_or(""), d.text);
        }
    }
    Ok(())
}

pub fn t03(s: &mut Src, ctx: &mut Ctx) -> R {
    let b = s.range(4, 24) as i32;
    let (before, after, inside) = (s.n(4), s.n(3), s.n(4));
    let mut g = TG::new(s, b, "");
    g.program(before);
    let place = match inside {
        0 => "def bad_f() -> None:",
        1 => "for bad_i in range(3):",
        2 => "class BadC:",
        _ => "",
    };
    if !place.is_empty() {
        g.out.push_str(place);
        g.out.push('\n');
        g.ind += 1;
    }
    if inside == 2 {
        g.line("def bad_m(self) -> None:");
        g.ind += 1;
    }
    // To know whether the place can be reached
    g.line("reveal_type(0)");
    let probe = PRELUDE.matches('\n').count() + g.out.matches('\n').count();
    let kind = g.wrong();
    g.precise = false;
    let at = PRELUDE.matches('\n').count() + g.out.matches('\n').count();
    // The function is what is reported if a return is missing
    let at = if kind == "missing return" { at - 1 } else { at };
    g.ind = 0;
    g.program(after);
    let code = format!("{PRELUDE}{}", g.out);
    ctx.note("code", code.strip_prefix(PRELUDE).unwrap());
    ctx.note("expected", format!("an error in line {at}: {kind}"));
    for fresh in [false, true] {
        let ds = check(Mode::Default, &code, fresh);
        let errors: Vec<_> = ds.iter().filter(|d| d.kind == "error" && d.code != "unreachable").collect();
        if !ds.iter().any(|d| d.line == probe && d.kind == "note") {
            ctx.class("not reachable");
            return Ok(());
        }
        let found = errors.iter().any(|d| d.line == at);
        if found {
            ctx.class(kind);
            ctx.nontrivial(code.strip_prefix(PRELUDE).unwrap());
            return Ok(());
        }
        if fresh {
            fail!(format!("missed: {kind}"), "nothing is reported in line {at} `{}`, only {}", code.lines().nth(at - 1).unwrap_or(""), render(&ds));
        }
    }
    Ok(())
}

/// Lines that end with `# error` have to be reported.
pub fn rejects(code: &str, _: &mut Ctx) -> R {
    let ds = check(Mode::Default, code, true);
    for (i, l) in code.lines().enumerate() {
        if l.ends_with("# error") && !ds.iter().any(|d| d.line == i + 1 && d.kind == "error") {
            let name = code.strip_prefix("# known: ").and_then(|c| c.lines().next());
            fail!(name.unwrap_or("missed"), "nothing is reported in line {}", i + 1);
        }
    }
    Ok(())
}
