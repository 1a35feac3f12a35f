//! V08: changes on disk are noticed through the watcher of the operating system.
use crate::world::*;
use notify::{EventKind, Watcher};
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vfs::*;
use vpcore::*;

const FILES: &[&str] = &["w/a.py", "w/b.py", "w/d/a.py", "w/d/b.py", "w/d/e/a.py", "w/n/a.py", "w/n/e/a.py", "w/l.py", "w/d/l.py", "w/ld/a.py", "w/ld/b.py"];
const DIRS: &[&str] = &["w/d", "w/d/e", "w/n", "w/n/e"];
const FLINKS: &[&str] = &["w/l.py", "w/d/l.py"];

struct M {
    sc: Scratch,
    v: Vfs<F>,
    open: BTreeMap<usize, String>,
    told: Arc<Mutex<Vec<String>>>,
    trace: Vec<String>,
    n: usize,
    events: u64,
    unreliable: bool,
}

impl M {
    fn t(&mut self, x: String) {
        self.trace.push(x);
    }
    /// Waits until all events of what happened so far were delivered and treats them like the
    /// language server does.
    fn sync(&mut self) -> R {
        self.n += 1;
        let mark = self.sc.p(&format!("zz/s{}", self.n));
        std::fs::write(&mark, "").unwrap();
        let end = Instant::now() + Duration::from_secs(10);
        let mut seen = false;
        while !seen {
            let e = {
                let Some(r) = self.v.handler.notify_receiver() else { fail!("no-receiver", "there is no receiver of events") };
                r.recv_deadline(end)
            };
            match e {
                Ok(Ok(e)) => {
                    if matches!(e.kind, EventKind::Create(_) | EventKind::Modify(_) | EventKind::Remove(_)) {
                        for p in &e.paths {
                            let p = p.to_str().unwrap();
                            if p == mark {
                                seen = true;
                                continue;
                            }
                            if !p.contains("/zz/") {
                                self.events += 1;
                                self.trace.push(format!("  event {}", p.strip_prefix(&self.sc.base).unwrap_or(p)));
                            }
                            let a = self.v.handler.unchecked_abs_path(p);
                            let _ = self.v.invalidate_path(true, &a);
                        }
                    }
                }
                Ok(Err(_)) => {
                    // e.g. too many watches
                    self.unreliable = true;
                    return Ok(());
                }
                Err(_) => {
                    if !works() {
                        self.unreliable = true;
                        return Ok(());
                    }
                    fail!("no-event", "a new file in a directory that was read causes no event");
                }
            }
        }
        Ok(())
    }
    fn want(&self, i: usize) -> Option<String> {
        self.open.get(&i).cloned().or_else(|| self.sc.read(FILES[i]))
    }
    fn check(&mut self, i: usize) -> R {
        let p = pws(&*self.v.handler, &self.sc.p(FILES[i]));
        let got = match self.v.search_path(true, &p) {
            Some(DirOrFile::File(f)) => self.v.ensure_file_for_file_entry(f, false, |_, c| F::new(c)).and_then(|x| self.v.file(x)).map(|f| f.code.to_string()),
            _ => None,
        };
        let want = self.want(i);
        if want.is_none() {
            let found = matches!(self.v.search_path(true, &p), Some(DirOrFile::File(_)));
            ensure!(!found, "ghost", "{} does not exist, but is found", FILES[i]);
        }
        ensure!(got == want, "content", "{} should be {want:?}, but is {got:?}", FILES[i]);
        Ok(())
    }
    fn known(&self, rel: &str) -> bool {
        self.v.search_path(true, &pws(&*self.v.handler, &self.sc.p(rel))).is_some()
    }
    fn is_link(&self, rel: &str) -> bool {
        Path::new(&self.sc.p(rel)).is_symlink()
    }
    fn put(&mut self, rel: &str, code: &str, atomic: bool) {
        let p = self.sc.p(rel);
        if atomic {
            // like many editors do
            let t = self.sc.p("tmp.txt");
            std::fs::write(&t, code).unwrap();
            std::fs::rename(&t, &p).unwrap();
        } else {
            std::fs::write(&p, code).unwrap();
        }
        self.t(format!("{} {rel} {code:?}", if atomic { "replace" } else { "write" }));
    }
    fn step(&mut self, s: &mut Src, ctx: &mut Ctx) -> R {
        let code = format!("c{}", s.n(4));
        match s.weighted(&[10, 4, 3, 3, 3, 3, 3, 4, 3, 2]) {
            0 => {
                let i = s.n(7);
                let rel = FILES[i];
                if !Path::new(&self.sc.p(rel)).parent().unwrap().is_dir() {
                    return Ok(());
                }
                let atomic = s.coin();
                self.put(rel, &code, atomic);
                ctx.class(if atomic { "replace" } else { "write" });
            }
            1 => {
                let rel = FILES[s.n(9)];
                if std::fs::remove_file(self.sc.p(rel)).is_ok() {
                    self.t(format!("delete {rel}"));
                    ctx.class("delete");
                }
            }
            2 => {
                let d = *s.pick(DIRS);
                if std::fs::create_dir(self.sc.p(d)).is_ok() {
                    self.t(format!("mkdir {d}"));
                    ctx.class("mkdir");
                }
            }
            3 => {
                let d = *s.pick(DIRS);
                if std::fs::remove_dir_all(self.sc.p(d)).is_ok() {
                    self.t(format!("rmdir {d}"));
                    ctx.class("rmdir");
                }
            }
            4 => {
                let (a, b) = (FILES[s.n(7)], FILES[s.n(7)]);
                if a != b && std::fs::rename(self.sc.p(a), self.sc.p(b)).is_ok() {
                    self.t(format!("move {a} to {b}"));
                    ctx.class("move");
                }
            }
            5 => {
                let (a, b) = (*s.pick(DIRS), *s.pick(DIRS));
                // (a directory that replaces a known one is a known finding of V01)
                if a == b || self.known(b) || Path::new(&self.sc.p(b)).exists() {
                    return Ok(());
                }
                if std::fs::rename(self.sc.p(a), self.sc.p(b)).is_ok() {
                    self.t(format!("move {a} to {b}"));
                    ctx.class("move_dir");
                }
            }
            6 => {
                // links to files and directories elsewhere
                if s.coin() {
                    let l = *s.pick(FLINKS);
                    if FLINKS.iter().any(|l| self.is_link(l)) {
                        return Ok(());
                    }
                    if std::os::unix::fs::symlink(self.sc.p("t/x.py"), self.sc.p(l)).is_ok() {
                        self.t(format!("link {l} to t/x.py"));
                        ctx.class("link");
                    }
                } else if self.is_link("w/ld") {
                    std::fs::remove_file(self.sc.p("w/ld")).unwrap();
                    self.t("delete w/ld".into());
                } else if !self.known("w/ld") && std::os::unix::fs::symlink("../t/dir", self.sc.p("w/ld")).is_ok() {
                    self.t("link w/ld to ../t/dir".into());
                    ctx.class("link_dir");
                }
            }
            7 => {
                // the targets
                let rel = *s.pick(&["t/x.py", "t/dir/a.py", "t/dir/b.py"]);
                let atomic = s.coin();
                if s.chance(1, 4) && rel != "t/x.py" {
                    let _ = std::fs::remove_file(self.sc.p(rel));
                    self.t(format!("delete {rel}"));
                } else {
                    self.put(rel, &code, atomic);
                }
                ctx.class("target");
            }
            8 => {
                let i = s.n(7);
                let p = pws(&*self.v.handler, &self.sc.p(FILES[i]));
                self.t(format!("store {} {code:?}", FILES[i]));
                let _ = self.v.store_in_memory_file(true, p, code.clone().into(), |_, _, c| F::new(c));
                self.open.insert(i, code);
                ctx.class("store");
            }
            _ => {
                let o: Vec<usize> = self.open.keys().copied().collect();
                if !o.is_empty() {
                    let i = o[s.n(o.len())];
                    let p = pws(&*self.v.handler, &self.sc.p(FILES[i]));
                    self.t(format!("close {}", FILES[i]));
                    let _ = self.v.close_in_memory_file(true, &p, |_, _, c| F::new(c));
                    self.open.remove(&i);
                    ctx.class("close");
                }
            }
        }
        Ok(())
    }
}

/// Whether the operating system tells about changes at all.
fn works() -> bool {
    let sc = Scratch::new();
    let (tx, rx) = crossbeam_channel::unbounded();
    let Ok(mut w) = notify::recommended_watcher(move |e| {
        let _ = tx.send(e);
    }) else {
        return false;
    };
    if w.watch(Path::new(&sc.base), notify::RecursiveMode::NonRecursive).is_err() {
        return false;
    }
    sc.write("x", "");
    matches!(rx.recv_timeout(Duration::from_secs(10)), Ok(Ok(_)))
}

pub fn v08(s: &mut Src, ctx: &mut Ctx) -> R {
    let sc = Scratch::new();
    for d in ["w", "zz", "t", "t/dir"] {
        std::fs::create_dir(sc.p(d)).unwrap();
    }
    let mut trace = vec![];
    for f in &FILES[..7] {
        if s.coin() {
            sc.write(f, "c0");
            trace.push(format!("at first {f}"));
        }
    }
    for f in ["t/x.py", "t/dir/a.py"] {
        sc.write(f, "c0");
    }
    let told: Arc<Mutex<Vec<String>>> = Default::default();
    let mut tries = 0;
    let h: Box<dyn VfsHandler> = loop {
        let t2 = told.clone();
        let fs: SimpleLocalFS = LocalFS::with_watcher(Box::new(move |p: PathWithScheme| t2.lock().unwrap().push(p.path().to_string())));
        let h: Box<dyn VfsHandler> = Box::new(fs);
        if h.notify_receiver().is_some() {
            break h;
        }
        // The number of watchers is limited and they are closed by threads of their own.
        tries += 1;
        if tries > 100 {
            ctx.class("no_watcher");
            ensure!(!works(), "no-watcher", "no watcher was made");
            return Ok(());
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let mut b = WorkspacesBuilder::new(&*h);
    b.add(npath(&*h, &sc.p("w")), WorkspaceKind::TypeChecking);
    b.add(npath(&*h, &sc.p("zz")), WorkspaceKind::SitePackages);
    let w = b.into();
    let mut m = M { sc, v: Vfs::new(h, w), open: BTreeMap::new(), told, trace, n: 0, events: 0, unreliable: false };
    let r = (|| {
        for _ in 0..3 + s.n(18) {
            // what is used is watched
            for _ in 0..s.n(4) {
                let i = s.n(FILES.len());
                m.check(i)?;
            }
            m.told.lock().unwrap().clear();
            m.step(s, ctx)?;
            m.sync()?;
            if m.unreliable {
                return Ok(());
            }
        }
        for i in 0..FILES.len() {
            m.check(i)?;
        }
        Ok(())
    })();
    ctx.note("history", m.trace.join("\n"));
    if m.unreliable {
        ctx.class("unreliable");
        return Ok(());
    }
    ctx.count("events", m.events);
    if r.is_ok() && m.events > 0 {
        ctx.nontrivial(&m.trace.join("\n"));
    }
    r
}
