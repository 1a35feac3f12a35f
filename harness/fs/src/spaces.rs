//! V03: which workspace a path belongs to.
use crate::world::*;
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::{Arc, Mutex};
use vfs::*;
use vpcore::*;

const ROOTS: &[&str] = &["w", "w2", "w/a", "w/a/b", "w/ab", "x", "x/w", "x/w/a", "w/v/site-packages", "W", "w/a/b/c", "w/s p", "w/é"];
const DIRS: &[&str] = &["w", "w2", "w/a", "w/a/b", "w/ab", "x", "x/w", "x/w/a", "w/v/site-packages", "w/v", "W", "w/a/b/c", "w/s p", "w/é", "w/a/n", "o", "o/p", "w/.h"];
const KINDS: [WorkspaceKind; 4] = [WorkspaceKind::TypeChecking, WorkspaceKind::SitePackages, WorkspaceKind::Typeshed, WorkspaceKind::PythonStdLib];

fn inside(root: &str, p: &str) -> bool {
    p.len() > root.len() && p.starts_with(root) && p.as_bytes()[root.len()] == b'/'
}

pub fn v03(s: &mut Src, ctx: &mut Ctx) -> R {
    let sc = Scratch::new();
    for d in DIRS {
        std::fs::create_dir_all(sc.p(d)).unwrap();
        if s.coin() {
            sc.write(&format!("{d}/m.py"), d);
        }
    }
    let log: Arc<Mutex<Vec<String>>> = Default::default();
    let h: Box<dyn VfsHandler> = Box::new(H::new(log.clone()));
    let mut trace = vec![];
    let mut roots: Vec<(String, WorkspaceKind)> = vec![];
    let late = s.n(3);
    let n = 1 + s.n(5);
    let fallback = s.chance(3, 4);
    let mut picks: Vec<(String, WorkspaceKind)> = vec![];
    for _ in 0..n + late {
        picks.push((s.pick(ROOTS).to_string(), *s.pick(&KINDS)));
    }
    let mut b = WorkspacesBuilder::new(&*h);
    for (r, k) in &picks[..n] {
        let mut p = sc.p(r);
        if s.chance(1, 6) {
            p.push('/');
        }
        let added = b.add(npath(&*h, &p), *k);
        let want = !roots.iter().any(|x| x.0 == *r);
        trace.push(format!("add {r} {k:?}"));
        ensure!(added == want, "add", "{trace:?}: the workspace {r} was added: {added}");
        if want {
            roots.push((r.clone(), *k));
        }
        ensure!(b.expect_last().root_path().to_string() == sc.p(&roots.last().unwrap().0), "last", "the last workspace is wrong");
    }
    for d in DIRS {
        let got = b.path_is_contained_in_type_checking_folder(&npath(&*h, &sc.p(d)));
        let want = roots.iter().any(|r| r.0 == *d || inside(&r.0, d));
        ensure!(got == want, "contained", "{trace:?}: {d} is contained in a workspace: {got}");
    }
    if fallback {
        b.add(h.unchecked_normalized_path(h.unchecked_abs_path("")), WorkspaceKind::Fallback);
    }
    let w = b.into();
    let v: Vfs<F> = Vfs::new(h, w);
    let mut order: Vec<(String, WorkspaceKind)> = roots.clone();
    if fallback {
        order.push((String::new(), WorkspaceKind::Fallback));
    }
    let mut m = M { sc, v, order, trace, open: BTreeMap::new() };
    for (r, k) in &picks[n..] {
        // A workspace within a directory that was already read comes too late.
        if m.order.iter().any(|o| !o.0.is_empty() && inside(&o.0, r)) {
            continue;
        }
        let added = m.v.add_workspace_without_full_access(npath(&*m.v.handler, &m.sc.p(r)), *k);
        let want = !m.order.iter().any(|x| x.0 == *r);
        m.trace.push(format!("late add {r} {k:?}"));
        if added {
            m.order.push((r.clone(), *k));
            ctx.class("late");
        }
        if let Err(e) = (|| {
            ensure!(added == want, "late-add", "{r} was added: {added}");
            Ok(())
        })() {
            ctx.note("history", m.trace.join("\n"));
            return Err(e);
        }
        if s.coin() {
            break;
        }
    }
    let r = m.go(s, ctx, fallback);
    ctx.note("history", m.trace.join("\n"));
    if r.is_ok() {
        ctx.nontrivial(&m.trace.join("\n"));
    }
    r
}

struct M {
    sc: Scratch,
    v: Vfs<F>,
    order: Vec<(String, WorkspaceKind)>,
    trace: Vec<String>,
    /// buffers of other schemes and outside of all workspaces
    open: BTreeMap<(String, String), String>,
}

impl M {
    fn owner(&self, rel: &str) -> Option<&(String, WorkspaceKind)> {
        self.order.iter().filter(|o| o.1 != WorkspaceKind::Fallback && inside(&o.0, rel)).max_by_key(|o| o.0.len())
    }
    fn lists(&self) -> R {
        let ws = self.v.workspaces.load();
        let strip = |p: &str| p.strip_prefix(&format!("{}/", self.sc.base)).unwrap_or(p).to_string();
        let got: Vec<(String, WorkspaceKind)> = ws.iter().map(|w| (strip(w.root_path()), w.kind)).collect();
        ensure!(got == self.order, "order", "the workspaces are {got:?} instead of {:?}", self.order);
        let back: Vec<String> = ws.iter().rev().map(|w| strip(w.root_path())).collect();
        ensure!(back.iter().rev().eq(self.order.iter().map(|o| &o.0)), "order-back", "the workspaces are {back:?} backwards");
        let checked = |k: WorkspaceKind| matches!(k, WorkspaceKind::TypeChecking | WorkspaceKind::Fallback);
        let got: Vec<String> = ws.iter_not_type_checked().map(|w| strip(w.root_path())).collect();
        let want: Vec<String> = self.order.iter().filter(|o| !checked(o.1)).map(|o| o.0.clone()).collect();
        ensure!(got == want, "not-checked", "{got:?} are not type checked instead of {want:?}");
        let n = ws.entries_to_type_check().count();
        let mut want = vec![];
        for (w, o) in ws.iter().zip(&self.order) {
            ensure!(w.is_type_checked() == checked(o.1), "is-checked", "{} is type checked: {}", o.0, w.is_type_checked());
            ensure!(w.part_of_site_packages() == (o.1 == WorkspaceKind::SitePackages), "is-site", "{} is part of site packages: {}", o.0, w.part_of_site_packages());
            if checked(o.1) {
                want.push(&w.entries as *const Entries);
            }
            for d in DIRS {
                let got = w.root_path_starts_with(&npath(&*self.v.handler, &self.sc.p(d)));
                let want = !o.0.is_empty() && (o.0 == *d || inside(d, &o.0));
                ensure!(got == want, "root-starts", "{} starts with {d}: {got}", o.0);
            }
        }
        let got: Vec<_> = ws.entries_to_type_check().map(|e| e as *const Entries).collect();
        ensure!(got == want && n == want.len(), "checked-entries", "the entries to type check are not those of the type checked workspaces");
        if let Some(l) = self.order.last() {
            let got = strip(self.v.workspaces.expect_last().root_path());
            ensure!(got == l.0, "expect-last", "the last workspace is {got}");
        }
        Ok(())
    }
    /// Whether a path is reached from a root downwards by listing directories.
    fn listed(&self, root: &str, rel: &str) -> bool {
        let rest = &rel[root.len() + 1..];
        rest.split('/').all(|c| !c.starts_with('.') && !["site-packages", "node_modules", "__pycache__"].contains(&c)) && Path::new(&self.sc.p(rel)).exists()
    }
    fn probe(&self, rel: &str, ctx: &mut Ctx) -> R {
        let v = &self.v;
        let p = pws(&*v.handler, &self.sc.p(rel));
        let got = v.search_path(true, &p);
        let owner = self.owner(rel);
        let want = owner.is_some_and(|o| self.listed(&o.0, rel));
        ensure!(got.is_some() == want, "search", "{rel} was found: {}, its workspace is {owner:?}", got.is_some());
        let Some(got) = got else {
            ctx.class("not_found");
            return Ok(());
        };
        ctx.class("found");
        let root = &owner.unwrap().0;
        let rest = &rel[root.len() + 1..];
        let (abs, relative, parent) = match &got {
            DirOrFile::File(f) => (f.absolute_path(&*v.handler), f.relative_path(&*v.handler), f.parent.clone()),
            DirOrFile::Dir(d) => {
                let nested = self.order.iter().any(|o| o.0 == rel);
                ensure!(d.is_nested_workspace() == nested, "nested", "{rel} is a nested workspace: {}", d.is_nested_workspace());
                (d.absolute_path(&*v.handler), d.relative_path(&*v.handler), d.parent.clone())
            }
        };
        ensure!(abs == p, "absolute", "{rel} has the path {}", abs.path());
        ensure!(relative == rest, "relative", "{rel} has the relative path {relative} instead of {rest}");
        let wp = parent.workspace_path();
        ensure!(wp.to_string() == self.sc.p(root), "workspace", "{rel} is in the workspace {wp} instead of {root}");
        ensure!(parent.workspace().root_path().to_string() == self.sc.p(root), "workspace", "{rel} is in another workspace");
        let outer = parent.most_outer_dir().map(|d| d.name.to_string());
        let want = rest.split_once('/').map(|x| x.0.to_string());
        ensure!(outer == want, "outer", "{rel} is in the package {outer:?} instead of {want:?}");
        match (rest.contains('/'), parent.maybe_dir(), parent.maybe_workspace()) {
            (true, Ok(d), Err(_)) => ensure!(rel.strip_suffix(&format!("/{}", rel.rsplit('/').next().unwrap())).is_some_and(|x| x.ends_with(&*d.name)), "parent", "{rel} has the parent {}", d.name),
            (false, Err(_), Ok(_)) => (),
            _ => fail!("parent", "{rel} has a wrong parent"),
        }
        // From every workspace above one gets to the same entry
        let ws = v.workspaces.load();
        for w in ws.iter() {
            let r = w.root_path().to_string();
            let Some(r) = r.strip_prefix(&format!("{}/", self.sc.base)) else { continue };
            if !inside(r, rel) || !self.listed(r, rel) {
                continue;
            }
            fn go(v: &Vfs<F>, e: &Entries, c: &[&str]) -> Option<DirectoryEntry> {
                let x = (*e.search(c[0])?).clone();
                match &x {
                    _ if c.len() == 1 => Some(x),
                    DirectoryEntry::Directory(d) => go(v, Directory::entries(v, d), &c[1..]),
                    _ => None,
                }
            }
            let c: Vec<&str> = rel[r.len() + 1..].split('/').collect();
            let same = match (go(v, &w.entries, &c), &got) {
                (Some(DirectoryEntry::File(a)), DirOrFile::File(b)) => Arc::ptr_eq(&a, b),
                (Some(DirectoryEntry::Directory(a)), DirOrFile::Dir(b)) => Arc::ptr_eq(&a, b),
                _ => false,
            };
            ensure!(same, "same", "{rel} is another entry when it is reached from {r}");
            if r != root {
                ctx.class("nested");
            }
        }
        Ok(())
    }
    fn go(&mut self, s: &mut Src, ctx: &mut Ctx, fallback: bool) -> R {
        self.lists()?;
        let mut probes: Vec<String> = vec![];
        for d in DIRS {
            probes.push(d.to_string());
            probes.push(format!("{d}/m.py"));
        }
        // in any order, because directories are read on demand
        for i in (1..probes.len()).rev() {
            let j = s.n(i + 1);
            probes.swap(i, j);
        }
        let take = s.n(probes.len() + 1);
        for p in &probes[..take] {
            self.probe(p, ctx)?;
        }
        // another case
        for _ in 0..3 {
            let p = s.pick(&probes).clone();
            let Some(o) = self.owner(&p).cloned() else { continue };
            let flipped = format!("{}{}", o.0.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect::<String>(), &p[o.0.len()..]);
            if self.order.iter().any(|x| x.0 == "W") || o.0.contains("site") {
                continue;
            }
            let got = self.v.search_path(false, &pws(&*self.v.handler, &self.sc.p(&flipped)));
            let want = self.listed(&o.0, &p);
            // (roots within the rest are compared, too)
            let other = self.order.iter().any(|x| !x.0.is_empty() && x.0 != o.0 && inside(&x.0.to_lowercase(), &p.to_lowercase()) && x.0.len() >= o.0.len());
            if other {
                continue;
            }
            ensure!(got.is_some() == want, "case", "{flipped} was found: {} (without regard to case)", got.is_some());
            let got = self.v.search_path(true, &pws(&*self.v.handler, &self.sc.p(&flipped)));
            if self.owner(&flipped).is_none() {
                ensure!(got.is_none(), "case-sensitive", "{flipped} was found");
            }
            ctx.class("case");
        }
        // files outside of all workspaces that are looked at nevertheless
        for rel in ["o/m.py", "o/p/m.py", "o/none.py"] {
            if !s.chance(1, 3) || self.owner(rel).is_some() {
                continue;
            }
            let p = pws(&*self.v.handler, &self.sc.p(rel));
            let got = self.v.ensure_fallback(p.clone());
            let want = self.sc.read(rel).filter(|_| fallback);
            self.trace.push(format!("fallback {rel}"));
            ctx.class("fallback");
            match (&got, &want) {
                (Some(DirectoryEntry::File(f)), Some(w)) => {
                    ensure!(f.absolute_path(&*self.v.handler).path().to_string() == self.sc.p(rel), "fallback-path", "{rel} has the path {}", f.absolute_path(&*self.v.handler).path());
                    let c = self.v.ensure_file_for_file_entry(f.clone(), false, |_, c| F::new(c)).and_then(|i| self.v.file(i)).map(|f| f.code.to_string());
                    ensure!(c.as_ref() == Some(w), "fallback-content", "{rel} is {c:?} instead of {w:?}");
                    match self.v.search_path(true, &p) {
                        Some(DirOrFile::File(x)) => ensure!(Arc::ptr_eq(&x, f), "fallback-search", "{rel} is another entry when searched"),
                        _ => fail!("fallback-search", "{rel} is not found"),
                    }
                }
                (None, None) => (),
                _ => fail!("fallback", "{rel} is {got:?} but should be {want:?}"),
            }
        }
        // buffers outside of all workspaces
        if fallback {
            for _ in 0..s.n(6) {
                let scheme = *s.pick(&["file", "untitled", "vscode-notebook-cell"]);
                let rel = match scheme {
                    "file" => *s.pick(&["o/m.py", "o/p/m.py", "z.py", "o/n.py"]),
                    "untitled" => *s.pick(&["Untitled-1", "Untitled-2", "w/Untitled-3"]),
                    _ => *s.pick(&["nb.ipynb#1", "nb.ipynb#2", "o/nb.ipynb#1"]),
                };
                if scheme == "file" && self.owner(rel).is_some() {
                    continue;
                }
                let path = PathWithScheme::new(Arc::new(scheme.into()), npath(&*self.v.handler, &self.sc.p(rel)));
                let key = (scheme.to_string(), rel.to_string());
                // Names without a scheme are kept in one place
                if self.open.keys().any(|k| k.1 == key.1 && k.0 != key.0) {
                    continue;
                }
                if self.open.contains_key(&key) && s.chance(1, 3) {
                    self.trace.push(format!("close {scheme} {rel}"));
                    let r = self.v.close_in_memory_file(true, &path, |_, _, c| F::new(c));
                    ensure!(r.is_ok(), "close", "{scheme}:{rel} is not open");
                    self.open.remove(&key);
                    ensure!(self.v.in_memory_file(&path).is_none(), "closed", "{scheme}:{rel} is still open");
                    continue;
                }
                let code = format!("x{}", s.n(3));
                self.trace.push(format!("store {scheme} {rel} {code}"));
                let (i, _) = self.v.store_in_memory_file(true, path.clone(), code.clone().into(), |_, _, c| F::new(c));
                self.open.insert(key, code);
                ctx.class(scheme);
                let Some(i) = i else { fail!("store", "{scheme}:{rel} has no index") };
                ensure!(self.v.in_memory_file(&path) == Some(i), "index", "{scheme}:{rel} has another index");
                for ((sch, r), c) in &self.open {
                    let path = PathWithScheme::new(Arc::new(sch.as_str().into()), npath(&*self.v.handler, &self.sc.p(r)));
                    let Some(i) = self.v.in_memory_file(&path) else { fail!("lost", "{sch}:{r} is not open any more") };
                    let got = self.v.file(i).map(|f| f.code.to_string());
                    ensure!(got.as_ref() == Some(c), "buffer", "{sch}:{r} is {got:?} instead of {c:?}");
                    ensure!(*self.v.file_path(i) == path, "buffer-path", "{sch}:{r} has the path {}", self.v.file_path(i).as_uri());
                    match self.v.search_path(true, &path) {
                        Some(DirOrFile::File(f)) => ensure!(f.get_file_index() == Some(i), "buffer-entry", "{sch}:{r} has the index {i} but {:?} in the tree", f.get_file_index()),
                        _ => fail!("buffer-search", "{sch}:{r} is not found"),
                    }
                }
            }
        }
        self.lists()?;
        for p in &probes {
            if self.open.keys().any(|k| k.0 == "file" && (k.1 == *p || inside(p, &k.1))) {
                continue;
            }
            if self.open.keys().any(|k| k.1 == *p) && self.owner(p).is_none() {
                continue;
            }
            if self.trace.iter().any(|t| t.contains("close") && t.ends_with(p.as_str())) || self.owner(p).is_none() {
                continue;
            }
            self.probe(p, ctx)?;
        }
        Ok(())
    }
}
