//! V04: .gitignore files, on disk and in buffers.
use crate::paths::match_name;
use crate::world::*;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use vfs::*;
use vpcore::*;

const WORDS: &[&str] = &["a", "b", "foo", "build", "a.py", "b.py", "x.pyc", "é", "Foo", "#x", "!x", "a b", "ab", "barfoo", "foobar"];
const PATS: &[&str] = &["a", "b", "foo", "build", "*.py", "*", "?", "a*", "[ab]", "[!a]", "[a-c].py", "*.pyc", "f*o", "é", "Foo", "\\#x", "\\!x", "a b", "*foo*", "x.pyc", "??"];

fn pattern(s: &mut Src) -> String {
    match s.weighted(&[20, 1, 1, 1]) {
        1 => return String::new(),
        2 => return "# a comment".into(),
        3 => return "   ".into(),
        _ => (),
    }
    let mut p = String::new();
    if s.chance(1, 5) {
        p.push('!');
    }
    if s.chance(1, 4) {
        p.push('/');
    }
    let n = 1 + s.weighted(&[6, 3, 1]);
    let mut last_star = false;
    for i in 0..n {
        if i > 0 {
            p.push('/');
        }
        if s.chance(1, 5) && n > 1 && !last_star {
            p.push_str("**");
            last_star = true;
        } else {
            p.push_str(s.pick(PATS));
            last_star = false;
        }
    }
    if s.chance(1, 4) && !last_star {
        p.push('/');
    }
    if s.chance(1, 8) {
        p.push(' ');
    }
    p
}

fn text(s: &mut Src) -> String {
    let mut t = String::new();
    if s.chance(1, 10) {
        t.push('\u{feff}');
    }
    let eol = if s.chance(1, 5) { "\r\n" } else { "\n" };
    let n = s.n(6);
    for i in 0..n {
        t.push_str(&pattern(s));
        if i + 1 < n || s.coin() {
            t.push_str(eol);
        }
    }
    t
}

fn unescape(p: &str) -> String {
    p.strip_prefix('\\').unwrap_or(p).to_string()
}

fn match_comps(p: &[String], t: &[String]) -> bool {
    match p.first() {
        None => t.is_empty(),
        Some(x) if x == "**" => {
            if p.len() == 1 {
                return !t.is_empty();
            }
            match_comps(&p[1..], t) || (!t.is_empty() && match_comps(p, &t[1..]))
        }
        Some(x) => {
            let Some(y) = t.first() else { return false };
            // git matches bytes
            let x: Vec<char> = x.bytes().map(|b| b as char).collect();
            let y: Vec<char> = y.bytes().map(|b| b as char).collect();
            match_name(&x, &y) && match_comps(&p[1..], &t[1..])
        }
    }
}

/// gitignore(5): the last matching line decides.
fn ignored(text: &str, rel: &[String], is_dir: bool) -> bool {
    let mut r = false;
    for line in text.strip_prefix('\u{feff}').unwrap_or(text).lines() {
        let line = line.trim_end_matches(' ');
        if line.is_empty() || line.starts_with('#') {
            continue;
        }
        let (neg, line) = match line.strip_prefix('!') {
            Some(l) => (true, l),
            None => (false, line),
        };
        let (dir_only, line) = match line.strip_suffix('/') {
            Some(l) => (true, l),
            None => (false, line),
        };
        if dir_only && !is_dir {
            continue;
        }
        let anchored = line.contains('/');
        let line = line.strip_prefix('/').unwrap_or(line);
        let mut p: Vec<String> = line.split('/').map(unescape).collect();
        if !anchored {
            p.insert(0, "**".into());
        }
        if match_comps(&p, rel) {
            r = !neg;
        }
    }
    r
}

fn entry(v: &Vfs<F>, dirs: &[&str]) -> Option<Arc<GitignoreFile>> {
    let ws = v.workspaces.load();
    let w = ws.iter().next().unwrap();
    fn go(v: &Vfs<F>, e: &Entries, dirs: &[&str]) -> Option<Arc<GitignoreFile>> {
        let found = (*e.search(dirs.first().copied().unwrap_or(".gitignore"))?).clone();
        match found {
            DirectoryEntry::Gitignore(g) if dirs.is_empty() => Some(g),
            DirectoryEntry::Directory(d) if !dirs.is_empty() => go(v, Directory::entries(v, &d), &dirs[1..]),
            _ => None,
        }
    }
    go(v, &w.entries, dirs)
}

pub fn v04(s: &mut Src, ctx: &mut Ctx) -> R {
    let sc = Scratch::new();
    let places: [&[&str]; 2] = [&[], &["d"]];
    let rel = |i: usize| if i == 0 { "w/.gitignore" } else { "w/d/.gitignore" };
    sc.write("w/d/x.py", "");
    let mut trace = vec![];
    let mut disk: [Option<String>; 2] = [None, None];
    let mut open: BTreeMap<usize, String> = BTreeMap::new();
    for i in 0..2 {
        if s.chance(2, 3) {
            let t = text(s);
            sc.write(rel(i), &t);
            trace.push(format!("at first {} {t:?}", rel(i)));
            disk[i] = Some(t);
        }
    }
    let log: Arc<Mutex<Vec<String>>> = Default::default();
    let cfg = Config { roots: vec![("w".into(), WorkspaceKind::TypeChecking)], fallback: true };
    let mut v = build(&sc, &cfg, &log);
    let mut steps = s.n(6);
    let r = loop {
        if let Err(e) = check(&v, &sc, &places, &disk, &open, s, ctx) {
            break Err(e);
        }
        if steps == 0 {
            break Ok(());
        }
        steps -= 1;
        let i = s.n(2);
        let path = pws(&*v.handler, &sc.p(rel(i)));
        match s.n(4) {
            0 => {
                let t = text(s);
                trace.push(format!("store {} {t:?}", rel(i)));
                let _ = v.store_in_memory_file(true, path, t.clone().into(), |_, _, c| F::new(c));
                open.insert(i, t);
                ctx.class("store");
            }
            1 => {
                if open.remove(&i).is_some() {
                    trace.push(format!("close {}", rel(i)));
                    if let Err(e) = v.close_in_memory_file(true, &path, |_, _, c| F::new(c)) {
                        break Err(Fail { sig: "close".into(), msg: e.to_string() });
                    }
                    ctx.class("close");
                } else if v.close_in_memory_file(true, &path, |_, _, c| F::new(c)).is_ok() {
                    break Err(Fail { sig: "close-closed".into(), msg: format!("{} was closed without being open", rel(i)) });
                }
            }
            k => {
                if k == 2 || disk[i].is_none() {
                    let t = text(s);
                    trace.push(format!("disk {} {t:?}", rel(i)));
                    sc.write(rel(i), &t);
                    disk[i] = Some(t);
                } else {
                    trace.push(format!("delete {}", rel(i)));
                    std::fs::remove_file(sc.p(rel(i))).unwrap();
                    disk[i] = None;
                }
                let a = v.handler.unchecked_abs_path(&sc.p(rel(i)));
                let _ = v.invalidate_path(true, &a);
                ctx.class("disk");
            }
        }
    };
    ctx.note("history", trace.join("\n"));
    if r.is_ok() {
        ctx.nontrivial(&trace.join("\n"));
    }
    r
}

fn check(v: &Vfs<F>, sc: &Scratch, places: &[&[&str]; 2], disk: &[Option<String>; 2], open: &BTreeMap<usize, String>, s: &mut Src, ctx: &mut Ctx) -> R {
    for i in 0..2 {
        let want = open.get(&i).or(disk[i].as_ref());
        let got = entry(v, places[i]);
        let base: String = std::iter::once("w").chain(places[i].iter().copied()).collect::<Vec<_>>().join("/");
        ensure!(want.is_some() == got.is_some(), "present", "a .gitignore in {base} should be {}, but is {}", want.is_some(), got.is_some());
        let (Some(want), Some(got)) = (want, got) else { continue };
        for _ in 0..6 {
            let n = 1 + s.n(3);
            let rel: Vec<String> = (0..n).map(|_| s.pick(WORDS).to_string()).collect();
            let is_dir = s.coin();
            let a = ignored(want, &rel, is_dir);
            let p = pws(&*v.handler, &format!("{}/{}", sc.p(&base), rel.join("/")));
            let b = got.is_path_ignored(&p, is_dir);
            ctx.class(if a { "ignored" } else { "not_ignored" });
            ensure!(a == b, "ignored", "{} (directory: {is_dir}) is ignored by {want:?}: {b}, should be {a}", rel.join("/"));
        }
    }
    Ok(())
}
