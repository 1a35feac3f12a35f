//! V01, V02, V07: histories of editor and file system changes.
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::{Arc, Mutex};
use vfs::*;
use vpcore::*;

/// Files that histories talk about, below the scratch directory. A file may import later ones
/// (with their results) and all (with their text).
const POOL: &[&str] = &[
    "w/a.py", "w/b.py", "w/d/a.py", "w/d/b.py", "w/d/e/a.py", "w/n/a.py", "w/n/e/a.py", "w/d/m/a.py", "s/a.py", "s/p/a.py", "w/p/q/a.py", "s/db.py",
];
const DIRS: &[&str] = &["w/d", "w/d/e", "w/n", "w/n/e", "w/d/m", "s/p", "w/p", "w/p/q"];
const DB: usize = 11;

#[derive(PartialEq, Clone, Copy)]
pub enum Mode {
    Content,
    Invalidation,
    Recovery,
}

struct M {
    sc: Scratch,
    cfg: Config,
    vfs: Option<Vfs<F>>,
    log: Arc<Mutex<Vec<String>>>,
    open: BTreeMap<usize, String>,
    /// paths whose change was not yet told
    pending: Vec<String>,
    trace: Vec<String>,
    has_db: bool,
    /// whether the file that everything depends on was loaded as such
    db_flag: std::cell::Cell<bool>,
    n: usize,
    /// directories that are or were files, where nothing may be opened
    files_over_dirs: BTreeSet<String>,
}

fn imports(code: &str) -> Vec<usize> {
    code.split(' ').filter_map(|x| x.strip_prefix('i')).filter_map(|x| x.parse().ok()).filter(|i| *i < POOL.len()).collect()
}

impl M {
    fn v(&self) -> &Vfs<F> {
        self.vfs.as_ref().unwrap()
    }
    fn vm(&mut self) -> &mut Vfs<F> {
        self.vfs.as_mut().unwrap()
    }
    fn abs(&self, i: usize) -> String {
        self.sc.p(POOL[i])
    }
    fn t(&mut self, s: String) {
        self.trace.push(s);
    }
    fn visible(&self, i: usize) -> Option<String> {
        match self.open.get(&i) {
            Some(c) => Some(c.clone()),
            None => self.sc.read(POOL[i]),
        }
    }
    /// What should come out of evaluating a file.
    fn want(&self, i: usize) -> Option<u64> {
        let code = self.visible(i)?;
        let mut r = fnv(code.as_bytes());
        for t in imports(&code) {
            r = mix(r, t as u64);
            if t > i {
                r = mix(r, self.want(t).unwrap_or(1));
            } else {
                r = mix(r, self.visible(t).map_or(2, |c| fnv(c.as_bytes())));
            }
        }
        Some(r)
    }
    fn entry(&self, i: usize) -> Option<Arc<FileEntry>> {
        let v = self.v();
        match v.search_path(true, &pws(&*v.handler, &self.abs(i)))? {
            DirOrFile::File(f) => Some(f),
            DirOrFile::Dir(_) => None,
        }
    }
    fn load(&self, i: usize) -> Option<FileIndex> {
        let e = self.entry(i)?;
        if self.has_db && i == DB {
            if e.get_file_index().is_none_or(|x| self.v().file(x).is_none()) {
                self.db_flag.set(true);
            }
        }
        // There is more than one way to load a file
        match mix(self.trace.len() as u64, i as u64) % 4 {
            0 if !(self.has_db && i == DB) => {
                let x = self.v().ensure_file_index(&e);
                assert_eq!(e.get_file_index(), Some(x));
                return self.v().ensure_file_for_file_index(x, |_, code| F::new(code)).ok().map(|_| x);
            }
            1 => {
                let before = e.get_file_index().map(|x| self.v().file(x).is_some());
                let r = self.v().ensure_file_for_file_entry_with_conditional(e.clone(), self.has_db && i == DB, |_| false, |_, code| F::new(code));
                assert_eq!(r.is_some(), before == Some(true), "{} was loaded though it should not", POOL[i]);
            }
            _ => (),
        }
        self.v().ensure_file_for_file_entry(e, self.has_db && i == DB, |_, code| F::new(code))
    }
    /// Resolves an import like the type checker does: from a workspace down, leaving a mark
    /// where it ended.
    fn resolve(&self, from: FileIndex, i: usize) -> Option<FileIndex> {
        let v = self.v();
        let abs = self.abs(i);
        let ws = v.workspaces.load();
        let w = ws
            .iter()
            .filter(|w| w.kind != WorkspaceKind::Fallback && abs.starts_with(&format!("{}/", &**w.root_path())))
            .max_by_key(|w| w.root_path().len())?;
        let rest = &abs[w.root_path().len() + 1..];
        let comps: Vec<&str> = rest.split('/').collect();
        fn go(m: &M, v: &Vfs<F>, entries: &Entries, comps: &[&str], from: FileIndex, db: bool) -> Option<FileIndex> {
            let found = entries.search(comps[0]).map(|e| (*e).clone());
            match found {
                Some(DirectoryEntry::Directory(d)) if comps.len() > 1 => go(m, v, Directory::entries(v, &d), &comps[1..], from, db),
                Some(DirectoryEntry::File(f)) if comps.len() == 1 => {
                    f.add_invalidation(from);
                    v.ensure_file_for_file_entry(f, db, |_, code| F::new(code))
                }
                _ => {
                    entries.add_missing_entry_callback(from)(comps[0]);
                    None
                }
            }
        }
        go(self, v, &w.entries, &comps, from, self.has_db && i == DB)
    }
    /// Evaluates with caching, like the type checker.
    fn eval(&self, i: usize, index: FileIndex) -> u64 {
        let v = self.v();
        let f = v.file(index).unwrap();
        if let Some(c) = *f.cache.lock().unwrap() {
            return c;
        }
        let mut r = fnv(f.code.as_bytes());
        for t in imports(&f.code) {
            r = mix(r, t as u64);
            let x = self.resolve(index, t);
            if t > i {
                r = mix(r, x.map_or(1, |x| self.eval(t, x)));
            } else {
                r = mix(r, x.map_or(2, |x| fnv(v.file(x).unwrap().code.as_bytes())));
            }
        }
        *f.cache.lock().unwrap() = Some(r);
        r
    }
    /// The text of the file that everything depends on, if it was loaded as such.
    fn db_code(&self) -> Option<String> {
        if !self.db_flag.get() {
            return None;
        }
        let c = self.entry(DB).and_then(|e| e.get_file_index()).and_then(|x| self.v().file(x)).map(|f| f.code.to_string());
        if c.is_none() {
            self.db_flag.set(false);
        }
        c
    }
    fn db_changed(&self, r: &InvalidationResult, before: Option<String>, concerned: bool) -> R {
        if let Some(c) = before
            && concerned
            && self.visible(DB).as_ref() != Some(&c)
        {
            ensure!(*r == InvalidationResult::InvalidatedDb, "db-missed", "{} was changed, but not everything is invalidated", POOL[DB]);
            self.db_flag.set(false);
        }
        Ok(())
    }
    fn db_invalidated(&mut self, r: InvalidationResult, had_db: bool) -> R {
        if r == InvalidationResult::InvalidatedDb {
            ensure!(had_db, "db", "the whole database was invalidated though no file asks for it");
            for i in self.open.keys() {
                let p = self.sc.p(POOL[*i]);
                ensure!(self.log.lock().unwrap().contains(&p), "db-callback", "the database was invalidated, but nothing was told about the open {p}");
            }
            let n = self.v().files.len();
            for x in 0..n {
                if let Some(f) = self.v().file(FileIndex(x as u32)) {
                    *f.cache.lock().unwrap() = None;
                }
            }
        }
        Ok(())
    }
    fn db_loaded(&self) -> bool {
        self.has_db
    }
    fn notify(&mut self, p: String) -> R {
        self.t(format!("  notify {}", p.strip_prefix(&self.sc.base).unwrap_or(&p)));
        let h = self.v().handler.unchecked_abs_path(&p);
        let had = self.db_loaded();
        let before = self.db_code();
        let r = self.vm().invalidate_path(true, &h);
        self.db_changed(&r, before, p == self.abs(DB))?;
        self.db_invalidated(r, had)
    }
    fn flush(&mut self) -> R {
        for p in std::mem::take(&mut self.pending) {
            self.notify(p)?;
        }
        Ok(())
    }
    fn store(&mut self, i: usize, code: &str) -> R {
        let p = self.abs(i);
        let path = pws(&*self.v().handler, &p);
        let had = self.db_loaded();
        let before = self.db_code();
        let (_, r) = self.vm().store_in_memory_file(true, path, code.into(), |_, _, c| F::new(c));
        self.open.insert(i, code.to_string());
        self.db_changed(&r, before, i == DB)?;
        ensure!(self.log.lock().unwrap().contains(&p), "store-callback", "nothing was told about the stored {p}");
        self.db_invalidated(r, had)
    }
    fn close(&mut self, i: usize) -> R {
        let path = pws(&*self.v().handler, &self.abs(i));
        let had = self.db_loaded();
        let before = self.db_code();
        let r = self.vm().close_in_memory_file(true, &path, |_, _, c| F::new(c));
        self.open.remove(&i);
        match r {
            Ok(r) => {
                self.db_changed(&r, before, i == DB)?;
                self.db_invalidated(r, had)
            }
            Err(e) => fail!("close", "{e}"),
        }
    }
    fn code(&mut self, s: &mut Src) -> String {
        self.n += 1;
        // Few different texts, so that the same one comes back
        let mut c = format!("v{}", s.n(3));
        for _ in 0..s.len(1, 3) {
            c.push_str(&format!(" i{}", s.n(POOL.len())));
        }
        // Texts that differ only in whitespace, case or length
        if s.chance(1, 4) {
            c.push_str(*s.pick(&[" ", " \n", " \n\n", " \t", " \r\n", " é", " É"]));
        }
        c
    }
    fn opened_below(&self, d: &str) -> bool {
        self.open.keys().any(|i| POOL[*i].starts_with(&format!("{d}/")))
    }
    fn below_file(&self, rel: &str) -> bool {
        self.files_over_dirs.iter().any(|d| rel.starts_with(&format!("{d}/"))) || Path::new(&self.sc.p(rel)).ancestors().skip(1).any(|a| a.is_file())
    }
    /// All files below a path, for events.
    fn walk(&self, rel: &str, out: &mut Vec<String>) {
        let p = self.sc.p(rel);
        if Path::new(&p).is_dir() {
            if let Ok(d) = std::fs::read_dir(&p) {
                let mut names: Vec<_> = d.flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect();
                names.sort();
                for n in names {
                    self.walk(&format!("{rel}/{n}"), out);
                }
            }
        }
        out.push(p);
    }

    fn disk_op(&mut self, s: &mut Src) -> R {
        let i = s.n(POOL.len());
        match s.n(8) {
            0..=2 => {
                let code = self.code(s);
                if self.below_file(POOL[i]) {
                    return Ok(());
                }
                let mut created = vec![];
                let p = self.abs(i);
                for a in Path::new(&p).ancestors().skip(1) {
                    if !a.exists() {
                        created.push(a.to_str().unwrap().to_string());
                    }
                }
                created.reverse();
                self.sc.write(POOL[i], &code);
                self.t(format!("disk write {} {code:?}", POOL[i]));
                // Whoever does not know the new directory yet gets only its event
                let known = !self.pending.is_empty() || created.first().is_none_or(|d| {
                    let v = self.v();
                    v.search_path(true, &pws(&*v.handler, d)).is_some()
                });
                if known || s.coin() {
                    created.push(p);
                }
                self.pending.extend(created);
            }
            3 => {
                let p = self.abs(i);
                if std::fs::remove_file(&p).is_ok() {
                    self.t(format!("disk delete {}", POOL[i]));
                    self.pending.push(p);
                }
            }
            4 => {
                let d = *s.pick(DIRS);
                let p = self.sc.p(d);
                if Path::new(&p).is_dir() {
                    let mut ev = vec![];
                    self.walk(d, &mut ev);
                    std::fs::remove_dir_all(&p).unwrap();
                    self.t(format!("disk rmdir {d}"));
                    if s.coin() && self.pending.is_empty() {
                        self.notify(p)?;
                    } else {
                        self.pending.extend(ev);
                    }
                }
            }
            5 => {
                // move a file or a directory
                let (a, b) = if s.coin() {
                    (POOL[i], POOL[s.n(POOL.len())])
                } else {
                    (*s.pick(DIRS), *s.pick(DIRS))
                };
                let (pa, pb) = (self.sc.p(a), self.sc.p(b));
                if a == b || self.below_file(b) || self.below_file(a) || !Path::new(&pa).exists() || !Path::new(&pb).parent().unwrap().is_dir() {
                    return Ok(());
                }
                // files in place of directories do not move
                if self.files_over_dirs.iter().any(|d| d == b || d == a || d.starts_with(&format!("{a}/"))) {
                    return Ok(());
                }
                let mut ev = vec![];
                self.walk(a, &mut ev);
                if Path::new(&pb).is_dir() {
                    return Ok(());
                }
                let known = {
                    let v = self.v();
                    v.search_path(true, &pws(&*v.handler, &pb)).is_some()
                };
                if std::fs::rename(&pa, &pb).is_ok() {
                    self.t(format!("disk move {a} to {b}"));
                    if s.coin() && self.pending.is_empty() && !known {
                        // A move is one event, however much lies below
                        self.notify(pa)?;
                        self.notify(pb)?;
                    } else {
                        self.pending.extend(ev);
                        let mut ev = vec![];
                        self.walk(b, &mut ev);
                        ev.reverse();
                        self.pending.extend(ev);
                    }
                }
            }
            6 => {
                let d = *s.pick(DIRS);
                let p = self.sc.p(d);
                if Path::new(&p).parent().unwrap().is_dir() && !Path::new(&p).exists() {
                    std::fs::create_dir(&p).unwrap();
                    self.t(format!("disk mkdir {d}"));
                    self.pending.push(p);
                }
            }
            _ => {
                // a file in place of a directory and back
                let d = *s.pick(&["w/d/e", "s/p", "w/p"]);
                let p = self.sc.p(d);
                if Path::new(&p).is_file() {
                    std::fs::remove_file(&p).unwrap();
                    self.t(format!("disk delete file {d}"));
                    self.pending.push(p);
                    self.flush()?;
                    self.files_over_dirs.remove(d);
                } else if s.chance(1, 3) && !self.opened_below(d) && Path::new(&p).parent().unwrap().is_dir() {
                    let _ = std::fs::remove_dir_all(&p);
                    std::fs::write(&p, "x").unwrap();
                    self.files_over_dirs.insert(d.to_string());
                    self.t(format!("disk file in place of directory {d}"));
                    self.pending.push(p);
                }
            }
        }
        Ok(())
    }

    fn check_content(&mut self, i: usize) -> R {
        let want = self.visible(i);
        let got = self.load(i).map(|x| self.v().file(x).map(|f| f.code.to_string()));
        let got = match got {
            Some(None) => fail!("unloaded", "{} has an index but no content", POOL[i]),
            Some(Some(c)) => Some(c),
            None => None,
        };
        ensure!(got == want, "content", "{} should be {want:?}, but is {got:?}", POOL[i]);
        if want.is_none() {
            ensure!(self.entry(i).is_none(), "ghost", "{} does not exist, but is found", POOL[i]);
        }
        self.check_open(i)?;
        // The entry that is reached from the workspaces downwards is the same one.
        let v = self.v();
        if let Some(e) = self.entry(i) {
            ensure!(
                e.absolute_path(&*v.handler).path().to_string() == self.abs(i),
                "entry-path",
                "{} was found with the path {}",
                POOL[i],
                e.absolute_path(&*v.handler).path()
            );
            let mut found = false;
            for w in v.workspaces.load().iter() {
                if w.kind == WorkspaceKind::Fallback {
                    continue;
                }
                let root = w.root_path().to_string();
                if let Some(rest) = self.abs(i).strip_prefix(&format!("{root}/")) {
                    let comps: Vec<&str> = rest.split('/').collect();
                    fn go(v: &Vfs<F>, entries: &Entries, comps: &[&str]) -> Option<Arc<FileEntry>> {
                        match &*entries.search(comps[0])? {
                            DirectoryEntry::Directory(d) if comps.len() > 1 => go(v, Directory::entries(v, d), &comps[1..]),
                            DirectoryEntry::File(f) if comps.len() == 1 => Some(f.clone()),
                            _ => None,
                        }
                    }
                    match go(v, &w.entries, &comps) {
                        Some(f) => {
                            found = true;
                            ensure!(Arc::ptr_eq(&f, &e), "two-entries", "{} has another entry in {root}", POOL[i])
                        }
                        None => fail!("no-entry", "{} is not found from {root} downwards", POOL[i]),
                    }
                }
            }
            ensure!(found, "no-workspace", "{} is in no workspace", POOL[i]);
        }
        Ok(())
    }
    fn check_open(&mut self, i: usize) -> R {
        let path = pws(&*self.v().handler, &self.abs(i));
        let got = self.vm().in_memory_file(&path).map(|x| self.v().file(x).map(|f| f.code.to_string()));
        let want = self.open.get(&i).cloned().map(Some);
        ensure!(got == want, "open", "the buffer of {} should be {want:?}, but is {got:?}", POOL[i]);
        if let Some(x) = self.vm().in_memory_file(&path) {
            let e = self.entry(i);
            let y = e.and_then(|e| e.get_file_index());
            ensure!(y == Some(x), "open-index", "{} has the index {x} as a buffer, but {y:?} in the tree", POOL[i]);
        }
        Ok(())
    }
    /// A part of a file (like the code of a quoted annotation) that is a file of its own.
    fn sub_file(&mut self, i: usize) -> R {
        if let Some(x) = self.load(i) {
            let code = format!("part of {i} {}", self.trace.len());
            self.t(format!("sub file of {}", POOL[i]));
            let y = self.v().create_sub_file(x, |_| F::new(code.clone().into()));
            ensure!(x != y, "sub-file", "a part of {} has the same index", POOL[i]);
            let got = self.v().file(y).map(|f| f.code.to_string());
            ensure!(got.as_ref() == Some(&code), "sub-file", "a part of {} is {got:?} instead of {code:?}", POOL[i]);
            ensure!(self.entry(i).and_then(|e| e.get_file_index()) == Some(x), "sub-file", "{} has another index after a part was added", POOL[i]);
            ensure!(Arc::ptr_eq(self.v().file_entry(x), self.v().file_entry(y)), "sub-file", "a part of {} has another entry", POOL[i]);
        }
        Ok(())
    }
    fn recover(&mut self) -> R {
        self.t("recover from a panic".into());
        self.log.lock().unwrap().clear();
        let v = self.vfs.take().unwrap();
        let rec = v.into_panic_recovery();
        for i in self.open.keys() {
            let p = self.abs(*i);
            ensure!(self.log.lock().unwrap().contains(&p), "recovery-callback", "nothing was told about the open {p}");
        }
        let mut v = build(&self.sc, &self.cfg, &self.log);
        v.load_panic_recovery(true, rec, |_, _, c| F::new(c));
        let ids: BTreeSet<u32> = v.in_memory_file_ids().map(|x| x.0).collect();
        ensure!(ids.len() == self.open.len(), "recovery-open", "{} buffers are open after the recovery instead of {}", ids.len(), self.open.len());
        self.vfs = Some(v);
        Ok(())
    }
}

fn run(s: &mut Src, ctx: &mut Ctx, mode: Mode) -> R {
    let sc = Scratch::new();
    for d in ["w", "s"] {
        std::fs::create_dir(sc.p(d)).unwrap();
    }
    let mut roots = vec![("w".to_string(), WorkspaceKind::TypeChecking)];
    if s.coin() {
        roots.push(("w/n".into(), *s.pick(&[WorkspaceKind::TypeChecking, WorkspaceKind::SitePackages])));
    }
    if s.chance(1, 3) {
        roots.push(("w/d/m".into(), WorkspaceKind::SitePackages));
    }
    if s.coin() {
        roots.reverse();
    }
    roots.push(("s".into(), WorkspaceKind::SitePackages));
    for (r, _) in &roots {
        // A root that is created later is a new workspace
        std::fs::create_dir_all(sc.p(r)).unwrap();
    }
    let nested: Vec<String> = roots.iter().map(|r| r.0.clone()).collect();
    let cfg = Config { roots, fallback: s.chance(3, 4) };
    let log: Arc<Mutex<Vec<String>>> = Default::default();
    // what is on disk before the start
    let mut m = M {
        vfs: None,
        cfg,
        log: log.clone(),
        open: Default::default(),
        pending: vec![],
        trace: vec![format!("workspaces {nested:?}")],
        has_db: s.chance(1, 4),
        db_flag: Default::default(),
        n: 0,
        files_over_dirs: Default::default(),
        sc,
    };
    for i in 0..POOL.len() {
        if s.coin() {
            let c = m.code(s);
            m.sc.write(POOL[i], &c);
            m.t(format!("at first {} {c:?}", POOL[i]));
        }
    }
    m.vfs = Some(build(&m.sc, &m.cfg, &log));
    let r = history(&mut m, s, ctx, mode);
    ctx.note("history", m.trace.join("\n"));
    if r.is_ok() {
        ctx.nontrivial(&m.trace.join("\n"));
    }
    r
}

fn history(m: &mut M, s: &mut Src, ctx: &mut Ctx, mode: Mode) -> R {
    let steps = 2 + s.n(22);
    let nested: Vec<String> = m.cfg.roots.iter().map(|r| r.0.clone()).collect();
    for _ in 0..steps {
        m.log.lock().unwrap().clear();
        // what was computed before
        let before: Vec<(usize, u64)> = if mode == Mode::Invalidation && m.pending.is_empty() {
            let mut b = vec![];
            for i in 0..POOL.len() {
                if let Some(x) = m.entry(i).and_then(|e| e.get_file_index())
                    && let Some(f) = m.v().file(x)
                    && let Some(c) = *f.cache.lock().unwrap()
                {
                    b.push((i, c));
                }
            }
            b
        } else {
            vec![]
        };
        let k = s.weighted(&[8, 4, 4, 6, 2, if mode == Mode::Recovery { 3 } else { 0 }, 1]);
        match k {
            0 => {
                let had = m.trace.len();
                m.disk_op(s)?;
                // A workspace root that disappears is not the subject here.
                for r in &nested {
                    if !Path::new(&m.sc.p(r)).is_dir() {
                        ctx.class("root_removed");
                        let _ = std::fs::remove_file(m.sc.p(r));
                        m.t(format!("(root {r} is gone, end)"));
                        return Ok(());
                    }
                }
                if m.trace.len() > had {
                    ctx.class("disk");
                }
                if !s.chance(1, 3) {
                    m.flush()?;
                }
            }
            1 => {
                let i = s.n(POOL.len());
                let code = m.code(s);
                if m.below_file(POOL[i]) {
                    continue;
                }
                ctx.class(if m.open.contains_key(&i) { "edit" } else { "open" });
                m.t(format!("store {} {code:?}", POOL[i]));
                m.store(i, &code)?;
            }
            2 => {
                let o: Vec<usize> = m.open.keys().copied().collect();
                if let Some(i) = (!o.is_empty()).then(|| o[s.n(o.len())]) {
                    if s.chance(1, 4) && !m.below_file(POOL[i]) {
                        // save before closing
                        let c = m.open[&i].clone();
                        let p = m.abs(i);
                        let mut created = vec![];
                        for a in Path::new(&p).ancestors().skip(1) {
                            if !a.exists() {
                                created.push(a.to_str().unwrap().to_string());
                            }
                        }
                        m.sc.write(POOL[i], &c);
                        m.t(format!("save {}", POOL[i]));
                        m.pending.extend(created);
                        m.pending.push(p);
                        if s.coin() {
                            m.flush()?;
                        }
                    }
                    ctx.class("close");
                    m.t(format!("close {}", POOL[i]));
                    m.close(i)?;
                }
            }
            3 => {
                // use a file
                let i = s.n(POOL.len());
                if m.pending.is_empty() {
                    if mode == Mode::Invalidation {
                        m.t(format!("evaluate {}", POOL[i]));
                        if let Some(x) = m.load(i) {
                            m.eval(i, x);
                        }
                    } else {
                        m.t(format!("load {}", POOL[i]));
                        m.check_content(i)?;
                        if mode == Mode::Recovery && s.coin() {
                            m.sub_file(i)?;
                            ctx.class("sub_file");
                        }
                    }
                }
            }
            4 => m.flush()?,
            5 => {
                m.flush()?;
                ctx.class("recover");
                m.recover()?;
            }
            _ => {
                // an event about nothing
                let i = s.n(POOL.len() + DIRS.len());
                let p = if i < POOL.len() { m.abs(i) } else { m.sc.p(DIRS[i - POOL.len()]) };
                if m.pending.is_empty() {
                    m.notify(p)?;
                }
            }
        }
        let open: Vec<usize> = m.open.keys().copied().collect();
        for i in open {
            m.check_open(i)?;
        }
        if m.pending.is_empty() {
            if mode == Mode::Invalidation {
                for (i, c) in &before {
                    // open files whose result changed must be told about
                    if m.open.contains_key(i) && m.want(*i) != Some(*c) {
                        let p = m.abs(*i);
                        ctx.class("told");
                        ensure!(m.log.lock().unwrap().contains(&p), "callback", "the result of the open {} changed, but nobody was told", POOL[*i]);
                    }
                }
                for _ in 0..s.n(4) {
                    let i = s.n(POOL.len());
                    check_eval(m, i, ctx)?;
                }
            } else {
                for _ in 0..s.n(3) {
                    let i = s.n(POOL.len());
                    m.check_content(i)?;
                }
            }
        }
    }
    m.flush()?;
    for i in 0..POOL.len() {
        if mode == Mode::Invalidation {
            check_eval(m, i, ctx)?;
        } else {
            m.check_content(i)?;
        }
    }
    Ok(())
}

fn check_eval(m: &mut M, i: usize, ctx: &mut Ctx) -> R {
    m.t(format!("  check {}", POOL[i]));
    let want = m.want(i);
    let got = match m.load(i) {
        Some(x) => {
            if m.v().file(x).unwrap().cache.lock().unwrap().is_some() {
                ctx.class("cached");
            }
            Some(m.eval(i, x))
        }
        None => None,
    };
    ensure!(got == want, "stale", "the result of {} (content {:?}) is stale: {got:?} instead of {want:?}", POOL[i], m.visible(i));
    Ok(())
}

pub fn v01(s: &mut Src, ctx: &mut Ctx) -> R {
    run(s, ctx, Mode::Content)
}
pub fn v02(s: &mut Src, ctx: &mut Ctx) -> R {
    run(s, ctx, Mode::Invalidation)
}
pub fn v07(s: &mut Src, ctx: &mut Ctx) -> R {
    run(s, ctx, Mode::Recovery)
}

/// A history from a file, one step per line: at/write FILE TEXT, start, store FILE TEXT,
/// close FILE, load FILE, mv A B, rm A, notify A.
fn script(text: &str, ctx: &mut Ctx, mode: Mode) -> R {
    let sc = Scratch::new();
    for d in ["w", "s"] {
        std::fs::create_dir(sc.p(d)).unwrap();
    }
    let cfg = Config { roots: vec![("w".into(), WorkspaceKind::TypeChecking), ("s".into(), WorkspaceKind::SitePackages)], fallback: true };
    let log: Arc<Mutex<Vec<String>>> = Default::default();
    let mut m = M {
        vfs: None,
        cfg,
        log: log.clone(),
        open: Default::default(),
        pending: vec![],
        trace: vec![],
        has_db: false,
        db_flag: Default::default(),
        n: 0,
        files_over_dirs: Default::default(),
        sc,
    };
    let index = |p: &str| POOL.iter().position(|x| *x == p).expect("a known file");
    let mut sig = "content";
    for l in text.lines() {
        let w: Vec<&str> = l.splitn(3, ' ').collect();
        match w[0] {
            "sig" => sig = if w[1] == "moved-over-known" { "moved-over-known" } else { "content" },
            "write" => m.sc.write(w[1], w[2]),
            "start" => m.vfs = Some(build(&m.sc, &m.cfg, &log)),
            "store" => m.store(index(w[1]), w[2])?,
            "close" => m.close(index(w[1]))?,
            "load" => m.check_content(index(w[1]))?,
            "mv" => std::fs::rename(m.sc.p(w[1]), m.sc.p(w[2])).unwrap(),
            "notify" => {
                let p = m.sc.p(w[1]);
                m.notify(p)?
            }
            _ => {}
        }
    }
    ctx.note("history", text.to_string());
    for i in 0..POOL.len() {
        let r = if mode == Mode::Invalidation { check_eval(&mut m, i, ctx) } else { m.check_content(i) };
        if let Err(f) = r {
            return fail_with(sig, f);
        }
    }
    Ok(())
}

fn fail_with(sig: &str, f: Fail) -> R {
    Err(Fail { sig: sig.into(), ..f })
}

pub fn v01_text(text: &str, ctx: &mut Ctx) -> R {
    script(text, ctx, Mode::Content)
}
