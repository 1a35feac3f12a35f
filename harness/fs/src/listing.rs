//! V06: the tree of a workspace is what the operating system shows.
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::fs::MetadataExt;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use vfs::*;
use vpcore::*;

#[derive(Clone, PartialEq, Debug)]
enum K {
    File(Option<String>),
    Dir,
    /// The text of a .gitignore
    Ignore(String),
}
type Tree = BTreeMap<String, K>;
const MAX: usize = 1500;

fn id(p: &Path) -> Option<(u64, u64)> {
    std::fs::metadata(p).ok().map(|m| (m.dev(), m.ino()))
}

/// What should be seen below a directory.
fn want(dir: &str, out: &mut Tree) {
    let Ok(it) = std::fs::read_dir(dir) else { return };
    for e in it.flatten() {
        if out.len() > MAX {
            return;
        }
        let Ok(name) = e.file_name().into_string() else { continue };
        let p = format!("{dir}/{name}");
        let path = Path::new(&p);
        let link = std::fs::symlink_metadata(path).unwrap().is_symlink();
        let Ok(m) = std::fs::metadata(path) else { continue };
        if m.is_dir() && link && path.ancestors().skip(1).any(|a| id(a) == id(path)) {
            continue;
        }
        if name == ".gitignore" && !m.is_dir() {
            if let Ok(c) = std::fs::read_to_string(path) {
                let c: String = c.lines().filter(|l| l.starts_with("ig")).map(|l| format!("{l}\n")).collect();
                out.insert(p, K::Ignore(c));
            }
            continue;
        }
        if name.starts_with('.') || ["site-packages", "node_modules", "__pycache__"].contains(&&*name) {
            continue;
        }
        if m.is_dir() {
            out.insert(p.clone(), K::Dir);
            want(&p, out);
        } else {
            out.insert(p.clone(), K::File(std::fs::read_to_string(path).ok()));
        }
    }
}

fn got(v: &Vfs<F>, dir: &str, entries: &Entries, out: &mut Tree) -> R {
    let names: Vec<(String, DirectoryEntry)> = entries.borrow().iter().map(|(n, e)| (n.to_string(), e.clone())).collect();
    for (n, e) in names {
        if out.len() > MAX {
            return Ok(());
        }
        ensure!(e.name() == n, "name", "the entry {n:?} has the name {:?}", e.name());
        let p = format!("{dir}/{n}");
        match e {
            DirectoryEntry::File(f) => {
                ensure!(f.absolute_path(&*v.handler).path().to_string() == p, "path", "{p} has another path: {}", f.absolute_path(&*v.handler).path());
                let c = v.ensure_file_for_file_entry(f.clone(), false, |_, c| F::new(c)).and_then(|x| v.file(x)).map(|f| f.code.to_string());
                out.insert(p.clone(), K::File(c));
                match v.search_path(true, &pws(&*v.handler, &p)) {
                    Some(DirOrFile::File(x)) if Arc::ptr_eq(&x, &f) => (),
                    _ => fail!("search", "{p} is not found by its path"),
                }
            }
            DirectoryEntry::Directory(d) => {
                ensure!(d.absolute_path(&*v.handler).path().to_string() == p, "path", "{p} has another path: {}", d.absolute_path(&*v.handler).path());
                match v.search_path(true, &pws(&*v.handler, &p)) {
                    Some(DirOrFile::Dir(x)) if Arc::ptr_eq(&x, &d) => (),
                    _ => fail!("search", "{p} is not found by its path"),
                }
                out.insert(p.clone(), K::Dir);
                got(v, &p, Directory::entries(v, &d), out)?;
            }
            DirectoryEntry::MissingEntry(_) => (),
            DirectoryEntry::Gitignore(g) => {
                let mut seen = String::new();
                for k in 0..6 {
                    if g.is_path_ignored(&pws(&*v.handler, &format!("{dir}/ig{k}")), false) {
                        seen.push_str(&format!("ig{k}\n"));
                    }
                }
                out.insert(p, K::Ignore(seen));
            }
        }
    }
    Ok(())
}

fn compare(v: &Vfs<F>, root: &str, ctx: &mut Ctx) -> Result<Option<Tree>, Fail> {
    let mut a = Tree::new();
    want(root, &mut a);
    let mut b = Tree::new();
    let ws = v.workspaces.load();
    got(v, root, &ws.iter().next().unwrap().entries, &mut b)?;
    if a.len() > MAX {
        ctx.class("too_large");
        return Ok(None);
    }
    for (p, k) in &a {
        match b.get(p) {
            None => fail!("missing", "{p} is missing ({k:?})"),
            Some(x) => ensure!(x == k, "kind", "{p} should be {k:?}, but is {x:?}"),
        }
    }
    // The same by walking, once completely and once without descending into some directories
    for skip in [0, 1 + a.len() as u64 % 3] {
        let mut n = 0usize;
        let mut seen: BTreeSet<String> = BTreeSet::new();
        let mut order: R = Ok(());
        ws.iter().next().unwrap().entries.walk_entries(v, &mut |parent: &Entries, e: &DirectoryEntry| {
            let p = match e {
                DirectoryEntry::File(f) => f.absolute_path(&*v.handler).path().to_string(),
                DirectoryEntry::Directory(d) => d.absolute_path(&*v.handler).path().to_string(),
                _ => return true,
            };
            if parent.borrow().get(e.name()).is_none() {
                order = Err(Fail::new("walk-parent", format!("{p} was visited with another directory")));
            }
            n += 1;
            let dive = skip == 0 || fnv(p.as_bytes()) % 3 != skip - 1;
            seen.insert(p);
            dive
        });
        order?;
        let want: BTreeSet<String> = a
            .iter()
            .filter(|(p, k)| {
                !matches!(k, K::Ignore(_))
                    && Path::new(p).ancestors().skip(1).take_while(|x| x.starts_with(root) && *x != Path::new(root)).all(|x| skip == 0 || fnv(x.to_str().unwrap().as_bytes()) % 3 != skip - 1)
            })
            .map(|(p, _)| p.clone())
            .collect();
        ensure!(seen == want && n == want.len(), "walk", "walking visits {seen:?} ({n}) instead of {want:?}");
    }
    for (p, k) in &b {
        ensure!(a.contains_key(p), "too-much", "{p} ({k:?}) should not be there");
    }
    Ok(Some(a))
}

const NAMES: &[&str] = &["a.py", "b.py", "c", "d", "e", "l", "m", "é.py", ".h", ".gitignore", "site-packages", "node_modules", "__pycache__", "..x", "a b.py", "B.py", "x.pyi", "日本"];

struct G {
    sc: Scratch,
    dirs: Vec<PathBuf>,
    all: Vec<PathBuf>,
    trace: Vec<String>,
}

impl G {
    fn name(&mut self, s: &mut Src) -> OsString {
        if s.chance(1, 20) {
            let mut v = b"bad".to_vec();
            v.push(0xff);
            return OsString::from_vec(v);
        }
        (*s.pick(NAMES)).into()
    }
    fn t(&mut self, x: String) {
        self.trace.push(x.replace(&self.sc.base, ""));
    }
    fn content(&mut self, s: &mut Src, ignore: bool) -> Vec<u8> {
        if ignore {
            let mut t = String::new();
            for k in 0..6 {
                if s.coin() {
                    t.push_str(&format!("ig{k}\n"));
                }
            }
            return t.into_bytes();
        }
        match s.n(8) {
            0 => vec![b'a', 0xff, b'b'],
            1 => vec![],
            k => format!("x = {k} # é\r\n").into_bytes(),
        }
    }
    fn create(&mut self, s: &mut Src, p: PathBuf) {
        let ignore = p.ends_with(".gitignore");
        match s.weighted(&[5, 3, 4]) {
            0 => {
                let c = self.content(s, ignore);
                if std::fs::write(&p, &c).is_ok() {
                    self.t(format!("file {p:?} {:?}", String::from_utf8_lossy(&c)));
                    self.all.push(p);
                }
            }
            1 => {
                if self.dirs.len() < 6 && std::fs::create_dir(&p).is_ok() {
                    self.t(format!("dir {p:?}"));
                    self.dirs.push(p.clone());
                    self.all.push(p);
                }
            }
            _ => {
                let target: PathBuf = match s.n(6) {
                    0 => (*s.pick(&[".", "..", "../..", "nowhere", "./c/../d", "../x"])).into(),
                    1 => p.clone(),
                    2 => self.sc.p("out").into(),
                    3 => s.pick(NAMES).into(),
                    _ => {
                        let t = self.all[s.n(self.all.len())].clone();
                        if s.coin() {
                            t
                        } else {
                            // the same as a relative path
                            let up = p.strip_prefix(&self.sc.base).map(|r| r.components().count() - 1).unwrap_or(0);
                            let mut r = PathBuf::new();
                            for _ in 0..up {
                                r.push("..");
                            }
                            r.push(t.strip_prefix(&self.sc.base).unwrap_or(Path::new(".")));
                            r
                        }
                    }
                };
                // (a link as .gitignore has no text of the kind that the check can read back)
                if !ignore && std::os::unix::fs::symlink(&target, &p).is_ok() {
                    self.t(format!("link {p:?} -> {target:?}"));
                    self.all.push(p);
                }
            }
        }
    }
}

pub fn v06(s: &mut Src, ctx: &mut Ctx) -> R {
    let sc = Scratch::new();
    let root = sc.p("w");
    std::fs::create_dir(&root).unwrap();
    sc.write("out/o.py", "o");
    sc.write("out/sub/i.py", "i");
    let mut g = G { dirs: vec![root.clone().into()], all: vec![root.clone().into(), sc.p("out").into(), sc.p("out/sub").into()], sc, trace: vec![] };
    if s.chance(1, 25) {
        // A chain of links, shorter than what the system follows
        let mut target: PathBuf = g.sc.p(s.pick(&["out/sub", "out/o.py"])).into();
        let n = s.range(2, 30);
        for i in 0..n {
            let p: PathBuf = g.sc.p(&format!("out/l{i}")).into();
            let _ = std::os::unix::fs::symlink(&target, &p);
            target = p;
        }
        let p = Path::new(&root).join("chain.py");
        let _ = std::os::unix::fs::symlink(&target, &p);
        g.t(format!("link {p:?} -> chain of {n}"));
        g.all.push(target);
        g.all.push(p);
    }
    for _ in 0..2 + s.n(12) {
        let d = g.dirs[s.n(g.dirs.len())].clone();
        let n = g.name(s);
        g.create(s, d.join(n));
    }
    let log: Arc<Mutex<Vec<String>>> = Default::default();
    let cfg = Config { roots: vec![("w".into(), WorkspaceKind::TypeChecking)], fallback: true };
    let mut v = build(&g.sc, &cfg, &log);
    let r = phases(&mut g, &mut v, s, ctx, &root);
    ctx.note("tree", g.trace.join("\n"));
    r
}

fn phases(g: &mut G, v: &mut Vfs<F>, s: &mut Src, ctx: &mut Ctx, root: &str) -> R {
    let Some(mut old) = compare(v, root, ctx)? else { return Ok(()) };
    ctx.nontrivial(&format!("{:?}", old.values().collect::<Vec<_>>()).as_str());
    ctx.count("entries", old.len() as u64);
    for _ in 0..s.n(4) {
        let p = g.all[3.min(g.all.len() - 1)..][s.n(g.all.len().saturating_sub(3).max(1))].clone();
        if !p.starts_with(root) || p == Path::new(root) {
            return Ok(());
        }
        let was_dir = std::fs::metadata(&p).is_ok_and(|m| m.is_dir());
        let Ok(m) = std::fs::symlink_metadata(&p) else { continue };
        if m.is_dir() {
            std::fs::remove_dir_all(&p).unwrap();
        } else {
            std::fs::remove_file(&p).unwrap();
        }
        g.t(format!("remove {p:?}"));
        g.dirs.retain(|d| !d.starts_with(&p));
        if s.coin() {
            g.create(s, p.clone());
        }
        let now_dir = std::fs::metadata(&p).is_ok_and(|m| m.is_dir());
        if was_dir && now_dir {
            // A directory that is exchanged for another one is not seen without events for all
            // of its content.
            ctx.class("exchanged");
            return Ok(());
        }
        let mut new = Tree::new();
        want(root, &mut new);
        // Every path that changed is told, from the top downwards.
        let mut changed: Vec<String> = old.iter().filter(|(k, x)| new.get(*k) != Some(*x)).map(|(k, _)| k.clone()).collect();
        changed.extend(new.keys().filter(|k| !old.contains_key(*k)).cloned());
        changed.push(p.to_str().map(str::to_string).unwrap_or_default());
        changed.sort();
        changed.dedup();
        changed.retain(|c| !c.is_empty());
        for c in &changed {
            let exchanged = old.get(c) == Some(&K::Dir) && new.get(c) == Some(&K::Dir);
            if exchanged {
                return Ok(());
            }
            g.t(format!("notify {c}"));
            let a = v.handler.unchecked_abs_path(c);
            let _ = v.invalidate_path(true, &a);
        }
        ctx.class("changed");
        match compare(v, root, ctx)? {
            Some(t) => old = t,
            None => return Ok(()),
        }
    }
    Ok(())
}
