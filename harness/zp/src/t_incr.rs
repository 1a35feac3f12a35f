//! T04: what is reported after a history of edits is what a new project reports.
use crate::proj::*;
use config::Mode;
use std::collections::BTreeMap;
use std::path::PathBuf;
use vpcore::*;
use vfs::AbsPath;
use zuban_python::Project;

/// In this order: a module only imports modules that come later, except in cyclic worlds.
const FILES: &[&str] = &["m0.py", "m1.py", "m2.py", "p/__init__.py", "p/a.py", "p/b.py", "m3.pyi", "m3.py", "q/c.py"];

fn module(file: &str) -> String {
    let m = file.trim_end_matches(".pyi").trim_end_matches(".py").replace('/', ".");
    m.trim_end_matches(".__init__").to_string()
}

struct World {
    root: PathBuf,
}
impl World {
    fn new() -> World {
        use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
        static N: AtomicU64 = AtomicU64::new(0);
        let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        let root = PathBuf::from(format!("{base}/vpzp-{}-{}", std::process::id(), N.fetch_add(1, SeqCst)));
        std::fs::create_dir_all(&root).unwrap();
        World { root }
    }
    fn at(&self, f: &str) -> String {
        format!("{}/{f}", self.root.display())
    }
}
impl Drop for World {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.root);
    }
}

/// Names that stand for the same kind of thing in all modules, except rarely.
const VALUES: &[&str] = &["x", "y", "_v"];
const FUNCS: &[&str] = &["f", "h"];
const CLASSES: &[&str] = &["C", "D"];
const ALIASES: &[&str] = &["A"];

#[derive(Default)]
struct Known {
    values: Vec<String>,
    funcs: Vec<String>,
    classes: Vec<String>,
    aliases: Vec<String>,
    defined: Vec<String>,
}
impl Known {
    fn import(&mut self, prefix: &str, n: &str, as_: &str) {
        let full = format!("{prefix}{as_}");
        self.slot(n).push(full);
    }
    fn all_of(&mut self, prefix: &str) {
        for n in VALUES.iter().chain(FUNCS).chain(CLASSES).chain(ALIASES) {
            self.import(prefix, n, n);
        }
    }
    fn slot(&mut self, n: &str) -> &mut Vec<String> {
        if VALUES.contains(&n) {
            &mut self.values
        } else if FUNCS.contains(&n) {
            &mut self.funcs
        } else if CLASSES.contains(&n) {
            &mut self.classes
        } else {
            &mut self.aliases
        }
    }
}

fn literal(s: &mut Src) -> String {
    s.pick(&["1", "''", "[1]", "{'a': b''}", "(1, '')", "3.5", "object()"]).to_string()
}
fn ty(s: &mut Src, k: &Known) -> String {
    let t = plain_ty(s, k);
    match s.n(9) {
        0 => format!("'{t}'"),
        1 => format!("list['{t}']"),
        _ => t,
    }
}
fn plain_ty(s: &mut Src, k: &Known) -> String {
    match s.n(8) {
        0 | 1 if !k.classes.is_empty() => s.pick(&k.classes).clone(),
        2 if !k.aliases.is_empty() => s.pick(&k.aliases).clone(),
        3 if !k.classes.is_empty() => format!("list[{}]", s.pick(&k.classes)),
        4 if !k.classes.is_empty() => format!("{} | None", s.pick(&k.classes)),
        _ => s.pick(&["int", "str", "None", "list[int]", "dict[str, bytes]", "tuple[int, str]", "float", "int | None"]).to_string(),
    }
}
fn expr(s: &mut Src, k: &Known) -> String {
    match s.n(10) {
        0..=2 if !k.values.is_empty() => s.pick(&k.values).clone(),
        3 | 4 if !k.funcs.is_empty() => format!("{}({})", s.pick(&k.funcs), literal(s)),
        5 if !k.funcs.is_empty() => s.pick(&k.funcs).clone(),
        6 if !k.classes.is_empty() => format!("{}(){}", s.pick(&k.classes), s.pick(&["", ".x", ".m(1)", ".own", ".nope"])),
        7 if !k.classes.is_empty() => format!("{}{}", s.pick(&k.classes), s.pick(&["", ".x"])),
        8 if !k.values.is_empty() => format!("{}.{}", s.pick(&k.values), s.pick(&["x", "upper()", "m(2)"])),
        _ => literal(s),
    }
}

/// A definition of a name.
fn definition(s: &mut Src, n: &str, kind: usize, k: &Known) -> String {
    match kind {
        0 => match s.n(6) {
            0 => format!("{n} = {}\n", literal(s)),
            1 => format!("{n}: {} = {}\n", ty(s, k), expr(s, k)),
            2 => format!("{n} = {} # type: {}\n", expr(s, k), plain_ty(s, k)),
            3 => format!("{n} = [{}, {}]\n", expr(s, k), expr(s, k)),
            _ => format!("{n} = {}\n", expr(s, k)),
        },
        1 => match s.n(5) {
            0 => format!("def {n}(a: {}, b: {} = ...) -> {}: ...\n", ty(s, k), ty(s, k), ty(s, k)),
            1 => format!("def {n}(a={}): return a\n", expr(s, k)),
            2 => format!("def {n}[T](a: T) -> list[T]: ...\n"),
            3 => format!("def {n}(a):\n    return {}\n", literal(s)),
            _ => format!("def {n}(a: {}) -> {}:\n    reveal_type(a)\n    return {}\n", ty(s, k), ty(s, k), expr(s, k)),
        },
        2 => match s.n(8) {
            0 | 1 => format!("class {n}:\n    x: {}\n    def m(self, a: {}) -> {}: ...\n", ty(s, k), ty(s, k), ty(s, k)),
            2..=4 if !k.classes.is_empty() => {
                format!("class {n}({}):\n    x: {}\n    def m(self, a: {}) -> {}:\n        return self.x\n", s.pick(&k.classes), ty(s, k), ty(s, k), ty(s, k))
            }
            5 => format!("from enum import Enum\nclass {n}(Enum):\n    x = {}\n    own = {}\n", literal(s), literal(s)),
            6 => format!("from dataclasses import dataclass\n@dataclass\nclass {n}:\n    x: {}\n    own: int = 1\n", ty(s, k)),
            7 => format!("from typing import NamedTuple\nclass {n}(NamedTuple):\n    x: {}\n    own: int = 1\n", ty(s, k)),
            _ => format!("class {n}:\n    def __init__(self) -> None:\n        self.x: {} = {}\n    @property\n    def own(self) -> {}: ...\n", ty(s, k), expr(s, k), ty(s, k)),
        },
        _ => match s.n(3) {
            _ => format!("type {n} = {} | {}\n", plain_ty(s, k), plain_ty(s, k)),
        },
    }
}

fn source(s: &mut Src, at: usize, cyclic: bool) -> String {
    let mut out = String::new();
    let mut k = Known::default();
    let me = FILES[at];
    let all: Vec<&str> = VALUES.iter().chain(FUNCS).chain(CLASSES).chain(ALIASES).copied().collect();
    let mut modules = vec![];
    for j in 0..s.n(6) {
        let to = if cyclic { s.n(FILES.len()) } else { s.range(at + 1, FILES.len()) };
        let mut m = FILES.get(to).map(|f| module(f)).unwrap_or("nope".into());
        if m == module(me) && !cyclic {
            m = "q.nope".into();
        }
        let n = *s.pick(&all);
        match s.n(9) {
            0 | 7 => {
                // the package itself comes before its modules in the order
                if m.starts_with("p.") && at >= 3 && !cyclic {
                    continue;
                }
                out += &format!("import {m}{}\n", if s.chance(1, 4) { " # type: ignore" } else { "" });
                k.all_of(&format!("{m}."));
                modules.push(m.clone());
            }
            1 => {
                out += &format!("import {m} as k{j}\n");
                k.all_of(&format!("k{j}."));
            }
            2 | 3 if k.defined.iter().any(|x| x == n) => {}
            2 | 3 => {
                // Stubs only export what is imported under the same name
                let as_ = if me.ends_with('i') { format!(" as {n}") } else { String::new() };
                out += &format!("from {m} import {n}{as_}\n");
                k.import("", n, n);
                k.defined.push(n.into());
            }
            4 => {
                out += &format!("from {m} import {n} as z{j}\n");
                k.import("", n, &format!("z{j}"));
            }
            5 => {
                if all.iter().all(|n| !k.defined.iter().any(|x| x == n)) {
                    out += &format!("from {m} import *\n");
                    k.all_of("");
                    // Redefining what comes from elsewhere is not what this is about
                    k.defined.extend(all.iter().map(|n| n.to_string()));
                }
            }
            6 if me.starts_with("p/") => {
                let sub = if at >= 4 { "b" } else { *s.pick(&["a", "b"]) };
                if !cyclic && at >= 5 || k.defined.iter().any(|x| x == n) {
                    continue;
                }
                out += &format!("from .{sub} import {n}\n");
                k.import("", n, n);
                k.defined.push(n.into());
            }
            6 => {
                let sub = *s.pick(&["a", "b", "nope"]);
                if !cyclic && at > 3 {
                    continue;
                }
                out += &format!("from p import {sub}\n");
                k.all_of(&format!("{sub}."));
            }
            _ => {}
        }
    }
    if s.chance(1, 6) {
        out += &format!("__all__ = ['{}', '{}']\n", s.pick(&all), s.pick(&all));
        if let Some(m) = modules.last() {
            if s.coin() {
                out += &format!("__all__ += {m}.__all__\n");
            }
        }
    }
    for line in 0..s.range(1, 7) {
        match s.n(9) {
            0..=4 => {
                let mut kind = s.n(4);
                let n = *s.pick([VALUES, FUNCS, CLASSES, ALIASES][kind]);
                if k.defined.iter().any(|x| x == n) {
                    continue;
                }
                if s.chance(1, 20) {
                    kind = s.range(1, 2);
                }
                out += &definition(s, n, kind, &k);
                k.defined.push(n.into());
                k.import("", n, n);
            }
            5 | 6 => out += &format!("reveal_type({})\n", expr(s, &k)),
            7 => out += &format!("def g{line}(k: {}) -> {}:\n    reveal_type(k)\n    return {}\n", ty(s, &k), ty(s, &k), expr(s, &k)),
            _ => out += &format!("_{line}: {} = {}\n", ty(s, &k), expr(s, &k)),
        }
    }
    if s.chance(1, 25) {
        out += s.pick(&["def (:\n", "x = = 1\n", "'''\n", "  indented\n", "class\n"]);
    }
    out
}

fn everything(p: &mut Project, w: &World, order: &[usize]) -> BTreeMap<String, Option<String>> {
    order.iter().map(|&i| (FILES[i].to_string(), report(p, w, FILES[i]))).collect()
}
fn report(p: &mut Project, w: &World, f: &str) -> Option<String> {
    let f = path(p, &w.at(f));
    diags(p, &f).map(|d| render(&d))
}
fn whole(p: &mut Project) -> String {
    match p.diagnostics() {
        Ok(d) => {
            let c = config::DiagnosticConfig::default();
            let mut v: Vec<String> = d.issues.iter().map(|i| i.as_string(&c, None)).collect();
            v.sort();
            format!("{}\nchecked {} with errors {}", v.join("\n"), d.checked_files, d.files_with_errors)
        }
        Err(e) => format!("error {e}"),
    }
}

pub fn t04(s: &mut Src, ctx: &mut Ctx) -> R {
    let w = World::new();
    let mode = if s.coin() { Mode::Default } else { Mode::Mypy };
    let cyclic = std::env::var_os("VP_CYCLIC").is_some();
    let root = w.root.display().to_string();
    let mut disk: BTreeMap<usize, String> = BTreeMap::new();
    let mut open: BTreeMap<usize, String> = BTreeMap::new();
    let write = |i: usize, code: &str| {
        let f = w.at(FILES[i]);
        std::fs::create_dir_all(std::path::Path::new(&f).parent().unwrap()).unwrap();
        std::fs::write(f, code).unwrap();
    };
    let mut trace = String::new();
    for i in 0..FILES.len() {
        if s.chance(2, 3) {
            let c = source(s, i, cyclic);
            write(i, &c);
            trace += &format!("## {}\n{c}", FILES[i]);
            disk.insert(i, c);
        }
    }
    let mut p = project(options(mode, &root));
    let (mut asked, mut changes) = (0u32, 0u32);
    for _ in 0..s.range(1, 10) {
        let i = s.n(FILES.len());
        let f = FILES[i];
        match s.n(12) {
            0..=3 => {
                trace += &format!("== ask {f}\n");
                report(&mut p, &w, f);
                asked += 1;
            }
            4 => {
                trace += "== ask everything\n";
                if s.coin() {
                    whole(&mut p);
                } else {
                    let order: Vec<usize> = (0..FILES.len()).collect();
                    everything(&mut p, &w, &order);
                }
                asked += 1;
            }
            5..=7 => {
                if !std::path::Path::new(&w.at(f)).parent().unwrap().exists() {
                    // A directory that only exists as long as a buffer is open
                    continue;
                }
                let c = if s.chance(1, 5) { open.get(&i).or(disk.get(&i)).cloned().unwrap_or_default() } else { source(s, i, cyclic) };
                trace += &format!("== edit {f}\n{c}");
                let at = path(&p, &w.at(f));
                p.store_in_memory_file(at, c.clone().into());
                open.insert(i, c);
                changes += (asked > 0) as u32;
            }
            8 => {
                if open.remove(&i).is_some() {
                    trace += &format!("== close {f}\n");
                    let at = path(&p, &w.at(f));
                    if let Err(e) = p.close_in_memory_file(&at) {
                        fail!("close", "closing {f}: {e}");
                    }
                    changes += (asked > 0) as u32;
                }
            }
            9 => {
                let c = source(s, i, cyclic);
                trace += &format!("== write {f}\n{c}");
                let parent = w.at(f).rsplit_once('/').unwrap().0.to_string();
                let existed = std::path::Path::new(&parent).exists();
                write(i, &c);
                disk.insert(i, c);
                if !existed {
                    invalidate(&mut p, &parent);
                }
                invalidate(&mut p, &w.at(f));
                changes += (asked > 0) as u32;
            }
            10 => {
                if disk.remove(&i).is_some() {
                    trace += &format!("== delete {f}\n");
                    std::fs::remove_file(w.at(f)).unwrap();
                    invalidate(&mut p, &w.at(f));
                    changes += (asked > 0) as u32;
                }
            }
            _ => {
                if s.chance(1, 3) {
                    trace += "== recover\n";
                    let r = p.into_panic_recovery();
                    p = Project::from_recovery(Box::new(vfs::LocalFS::without_watcher()), options(mode, &root), r);
                    changes += (asked > 0) as u32;
                } else {
                    let d = *s.pick(&["p", "q"]);
                    let gone: Vec<usize> = disk.keys().copied().filter(|&k| FILES[k].starts_with(&format!("{d}/"))).collect();
                    if !gone.is_empty() && !open.keys().any(|&k| FILES[k].starts_with(&format!("{d}/"))) {
                        trace += &format!("== delete {d}\n");
                        std::fs::remove_dir_all(w.at(d)).unwrap();
                        for k in gone {
                            disk.remove(&k);
                        }
                        invalidate(&mut p, &w.at(d));
                        changes += (asked > 0) as u32;
                    }
                }
            }
        }
    }
    ctx.note("history", trace.clone());
    let mut order: Vec<usize> = (0..FILES.len()).collect();
    for k in (1..order.len()).rev() {
        order.swap(k, s.n(k + 1));
    }
    let mut fresh = project(options(mode, &root));
    for (i, c) in &open {
        let at = path(&fresh, &w.at(FILES[*i]));
        fresh.store_in_memory_file(at, c.clone().into());
    }
    let whole_first = s.chance(1, 3);
    let mut second = order.clone();
    if !cyclic {
        second.reverse();
    }
    let (mut a0, mut b0) = (String::new(), String::new());
    if whole_first {
        a0 = whole(&mut p);
        b0 = whole(&mut fresh);
    }
    let a = everything(&mut p, &w, &order);
    let b = everything(&mut fresh, &w, &second);
    for (f, x) in &b {
        let y = &a[f];
        if x != y {
            fail!(
                "differs",
                "{f} (mode {mode:?}):\na new project reports\n{}and after the history\n{}\nhistory:\n{trace}",
                x.as_deref().unwrap_or("(no file)\n"),
                y.as_deref().unwrap_or("(no file)\n")
            );
        }
    }
    ensure!(a0 == b0, "whole", "a new project reports for all files\n{b0}\nand after the history\n{a0}\nhistory:\n{trace}");
    if changes > 0 && b.values().flatten().any(|x| !x.is_empty()) {
        ctx.nontrivial(&trace);
    }
    ctx.count("files compared", b.values().flatten().count() as u64);
    ctx.class(if changes == 0 { "unchanged" } else { "changed" });
    Ok(())
}

fn invalidate(p: &mut Project, f: &str) {
    let a = p.vfs_handler().unchecked_abs_path(f);
    let a: &AbsPath = &a;
    p.invalidate_path(a);
}
