//! U01, U02: containers and small helpers that everything else is built on.
use crate::world::*;
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Barrier, Mutex, RwLock};
use utils::*;
use vfs::*;
use vpcore::*;

fn val(t: usize, k: usize) -> String {
    format!("{t}/{k}")
}

/// Sequential histories against a plain vector.
fn model(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut m: Vec<String> = vec![];
    let mut v: InsertOnlyVec<String> = Default::default();
    if s.coin() {
        m = (0..s.n(5)).map(|k| val(9, k)).collect();
        v = InsertOnlyVec::from(m.iter().cloned().map(Box::pin).collect::<Vec<_>>());
    }
    let mut trace = vec![];
    for k in 0..s.n(30) {
        match s.n(10) {
            0..=3 => {
                let x = val(0, k);
                // References stay valid while more is pushed
                let first = v.get(0);
                let (r, i) = v.push(Box::pin(x.clone()));
                ensure!(*r == x && i == m.len(), "push", "{trace:?}: pushed {x}, got {r} at {i} of {}", m.len());
                let before = first.cloned();
                for j in 0..s.n(20) {
                    v.push(Box::pin(val(1, j)));
                    m.push(String::new());
                    let l = m.len();
                    // (the pushed value comes after x)
                    m[l - 1] = val(1, j);
                }
                ensure!(*r == x && first.cloned() == before, "reference", "a reference changed by pushing");
                m.insert(i, x);
                trace.push("push");
            }
            4 => {
                let i = s.n(m.len() + 2);
                ensure!(v.get(i) == m.get(i), "get", "{trace:?}: {i} is {:?} instead of {:?}", v.get(i), m.get(i));
            }
            5 => {
                ensure!(v.len() == m.len() && v.is_empty() == m.is_empty(), "len", "{trace:?}: the length is {} instead of {}", v.len(), m.len());
                ensure!(v.last() == m.last(), "last", "{trace:?}: the last is {:?} instead of {:?}", v.last(), m.last());
            }
            6 => {
                if !m.is_empty() {
                    let i = s.n(m.len());
                    ensure!(v[i] == m[i], "index", "{trace:?}: {i} is {:?} instead of {:?}", v[i], m[i]);
                    if s.coin() {
                        v[i] = val(2, k);
                    } else {
                        v.set(i, Box::pin(val(2, k)));
                    }
                    m[i] = val(2, k);
                    trace.push("set");
                }
            }
            7 => {
                let a: Vec<String> = unsafe { v.iter() }.cloned().collect();
                ensure!(a == m, "iter", "{trace:?}: {a:?} instead of {m:?}");
                let a: Vec<String> = v.iter_mut().map(|x| (**x).clone()).collect();
                ensure!(a == m, "iter-mut", "{trace:?}: {a:?} instead of {m:?}");
                ensure!(format!("{v:?}") == format!("{m:?}"), "debug", "{v:?} instead of {m:?}");
            }
            8 => {
                // out of bounds panics and leaves everything usable
                let l = m.len();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v[l].len()));
                ensure!(r.is_err(), "bounds", "{trace:?}: {l} is within {l} elements");
                ensure!(v.len() == l, "bounds-len", "the length changed");
                ensure!(v.as_vec_mut().len() == l, "bounds-len", "the length changed");
            }
            _ => {
                if s.chance(1, 4) {
                    v.clear();
                    m.clear();
                    trace.push("clear");
                }
            }
        }
    }
    let a: Vec<String> = v.into_iter().map(|x| (*x).clone()).collect();
    ensure!(a == m, "into-iter", "{trace:?}: {a:?} instead of {m:?}");
    ctx.class("model");
    Ok(())
}

/// Threads that push and read at once.
fn threads(s: &mut Src, ctx: &mut Ctx) -> R {
    let writers = 1 + s.n(3);
    let readers = 1 + s.n(3);
    let per = 200 + s.n(400);
    let v: Arc<InsertOnlyVec<String>> = Default::default();
    let start = Arc::new(Barrier::new(writers + readers));
    let done = Arc::new(AtomicBool::new(false));
    let err: Arc<Mutex<Option<String>>> = Default::default();
    std::thread::scope(|sc| {
        let mut ws = vec![];
        for t in 0..writers {
            let (v, start, err) = (v.clone(), start.clone(), err.clone());
            ws.push(sc.spawn(move || {
                start.wait();
                for k in 0..per {
                    let x = val(t, k);
                    let (r, i) = v.push(Box::pin(x.clone()));
                    if *r != x || v.get(i).map(|y| y.as_str()) != Some(&x) {
                        *err.lock().unwrap() = Some(format!("{x} was pushed at {i}, but there is {:?}", v.get(i)));
                    }
                }
            }));
        }
        for t in 0..readers {
            let (v, start, done, err) = (v.clone(), start.clone(), done.clone(), err.clone());
            sc.spawn(move || {
                start.wait();
                let mut seen: Vec<(usize, String)> = vec![];
                let mut len = 0;
                let mut k = t;
                while !done.load(Ordering::Relaxed) {
                    let n = v.len();
                    if n < len {
                        *err.lock().unwrap() = Some(format!("the length went from {len} to {n}"));
                    }
                    len = n;
                    if n == 0 {
                        continue;
                    }
                    k = (k * 31 + 7) % n;
                    let mut bad = v.is_empty() || v.last().is_none();
                    match v.get(k) {
                        Some(x) => {
                            bad |= !x.contains('/') || *x != v[k];
                            if seen.len() < 500 {
                                seen.push((k, x.clone()));
                            }
                        }
                        None => bad = true,
                    }
                    if bad {
                        *err.lock().unwrap() = Some(format!("element {k} of at least {n} is {:?}", v.get(k)));
                    }
                }
                for (i, x) in seen {
                    if v.get(i) != Some(&x) {
                        *err.lock().unwrap() = Some(format!("element {i} was {x}, now it is {:?}", v.get(i)));
                    }
                }
            });
        }
        for w in ws {
            let _ = w.join();
        }
        done.store(true, Ordering::Relaxed);
    });
    if let Some(e) = err.lock().unwrap().take() {
        fail!("race", "{writers} writers, {readers} readers: {e}");
    }
    ensure!(v.len() == writers * per, "lost", "{} elements instead of {}", v.len(), writers * per);
    let all: BTreeSet<String> = unsafe { v.iter() }.cloned().collect();
    ensure!(all.len() == writers * per, "lost", "{} different elements instead of {}", all.len(), writers * per);
    for t in 0..writers {
        let mine: Vec<&String> = unsafe { v.iter() }.filter(|x| x.starts_with(&format!("{t}/"))).collect();
        ensure!(mine.iter().enumerate().all(|(k, x)| **x == val(t, k)), "order", "the elements of a thread are not in its order");
    }
    ctx.class("threads");
    Ok(())
}

pub fn u01(s: &mut Src, ctx: &mut Ctx) -> R {
    let t = s.chance(1, 40);
    if t {
        threads(s, ctx)?;
    } else {
        model(s, ctx)?;
    }
    ctx.nontrivial(&format!("{t} {:?}", s.rec));
    Ok(())
}

pub fn u02(s: &mut Src, ctx: &mut Ctx) -> R {
    // Chains of what was already seen, as a tree of frames
    fn chain(s: &mut Src, seen: &AlreadySeen<u8>, path: &mut Vec<u8>, depth: usize) -> R {
        let cyc = path[..path.len() - 1].contains(path.last().unwrap());
        ensure!(seen.is_cycle() == cyc, "cycle", "{path:?} is a cycle: {}", seen.is_cycle());
        let got: Vec<u8> = seen.iter_ancestors().copied().collect();
        let want: Vec<u8> = path[..path.len() - 1].iter().rev().copied().collect();
        ensure!(got == want, "ancestors", "{path:?} has the ancestors {got:?}");
        ensure!(format!("{seen:?}") == format!("{want:?}"), "debug", "{seen:?} instead of {want:?}");
        let c = *seen;
        ensure!(c.current == seen.current && c.is_cycle() == cyc, "copy", "a copy differs");
        if depth > 0 {
            for _ in 0..1 + s.n(2) {
                let x = s.n(6) as u8;
                path.push(x);
                chain(s, &seen.append(x), path, depth - 1)?;
                path.pop();
            }
        }
        Ok(())
    }
    let x = s.n(6) as u8;
    let d = s.n(6);
    chain(s, &AlreadySeen::new(x), &mut vec![x], d)?;
    // case
    const C: &[char] = &['a', 'A', 'b', 'é', 'É', 'ß', 'ẞ', 'k', 'K', '\u{212a}', '/', 'z', 'Z', '@', '[', '`', '{', 'ı', 'I'];
    let a: String = (0..s.n(4)).map(|_| *s.pick(C)).collect();
    let b: String = if s.coin() {
        a.chars().map(|c| if s.coin() { if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() } } else { c }).collect()
    } else {
        (0..s.n(4)).map(|_| *s.pick(C)).collect()
    };
    ensure!(match_case(true, &a, &b) == (a == b), "case", "{a:?} {b:?}");
    let fold = |x: &str| x.bytes().map(|c| if c.is_ascii_uppercase() { c + 32 } else { c }).collect::<Vec<u8>>();
    ensure!(match_case(false, &a, &b) == (fold(&a) == fold(&b)), "no-case", "{a:?} {b:?}");
    // binary round trip
    type T = (Vec<Option<u32>>, String, Vec<(i64, bool)>, std::collections::BTreeMap<String, Vec<u8>>);
    let t: T = (
        (0..s.n(6)).map(|_| s.coin().then(|| s.u64() as u32 >> s.n(32))).collect(),
        a.clone(),
        (0..s.n(6)).map(|_| ((s.u64() as i64) >> s.n(64), s.coin())).collect(),
        (0..s.n(4)).map(|i| (format!("{b}{i}"), (0..s.n(5)).map(|_| s.u64() as u8).collect())).collect(),
    );
    let bytes = match serialize_binary(&t) {
        Ok(x) => x,
        Err(e) => fail!("serialize", "{e}"),
    };
    match deserialize_binary::<T>(&bytes) {
        Ok(x) => ensure!(x == t, "round-trip", "{t:?} became {x:?}"),
        Err(e) => fail!("deserialize", "{t:?}: {e}"),
    }
    if !bytes.is_empty() {
        // Truncated data is an error, not a panic or another value
        let k = s.n(bytes.len());
        ensure!(deserialize_binary::<T>(&bytes[..k]).is_err(), "truncated", "{k} of {} bytes were enough", bytes.len());
        let mut broken = bytes.clone();
        broken[k] ^= 1 << s.n(8);
        let _ = deserialize_binary::<T>(&broken);
    }
    // guards: the value, and the lock is held exactly as long as the guard lives
    let l = RwLock::new((a.clone(), Some(b.clone())));
    {
        let g = MappedReadGuard::map(l.read().unwrap(), |x| &x.0);
        ensure!(*g == a && l.try_write().is_err() && l.try_read().is_ok(), "read-guard", "a read guard does not hold its lock");
    }
    ensure!(l.try_write().is_ok(), "read-release", "a read guard keeps its lock");
    {
        let g = MappedReadGuard::map_optional(l.read().unwrap(), |x| x.1.as_ref());
        ensure!(g.as_deref() == Some(&b) && l.try_write().is_err(), "read-guard", "an optional read guard does not hold its lock");
        drop(g);
        let g = MappedReadGuard::map_optional(l.read().unwrap(), |_| None::<&String>);
        ensure!(g.is_none() && l.try_write().is_ok(), "read-none", "an empty read guard keeps its lock");
    }
    {
        let mut g = MappedWriteGuard::map(l.write().unwrap(), |x| &mut x.0);
        g.push('!');
        ensure!(l.try_read().is_err(), "write-guard", "a write guard does not hold its lock");
    }
    {
        let g = MappedWriteGuard::map_optional(l.write().unwrap(), |x| x.1.as_mut());
        ensure!(l.try_read().is_err(), "write-guard", "an optional write guard does not hold its lock");
        g.unwrap().push('?');
    }
    match l.try_read() {
        Ok(x) => ensure!(x.0 == format!("{a}!") && x.1 == Some(format!("{b}?")), "written", "{x:?} after writing"),
        Err(_) => fail!("write-release", "a write guard keeps its lock"),
    }
    {
        let g = l.read().unwrap();
        let it = OwnedMappedReadGuard::map_owned(&g, |x| x.0.chars());
        let it2 = OwnedMappedReadGuard::map_owned(&g, |x| x.0.chars());
        let f: String = it.collect();
        let r: String = it2.rev().collect();
        ensure!(f == format!("{a}!") && r.chars().rev().collect::<String>() == f, "iterator-guard", "{f} {r}");
    }
    ctx.class(if a == b { "same" } else { "different" });
    ctx.nontrivial(&format!("{:?}", s.rec));
    Ok(())
}

/// V09: threads load, search and miss files of one VFS at the same time.
pub fn v09(s: &mut Src, ctx: &mut Ctx) -> R {
    let sc = Scratch::new();
    let dirs = ["w", "w/a", "w/a/b", "w/n", "x", "x/y"];
    let mut files: Vec<String> = vec![];
    for d in dirs {
        for k in 0..3 {
            let f = format!("{d}/m{k}.py");
            if s.chance(2, 3) {
                sc.write(&f, &format!("text of {f}"));
            } else {
                std::fs::create_dir_all(sc.p(d)).unwrap();
            }
            files.push(f);
        }
    }
    let log: Arc<Mutex<Vec<String>>> = Default::default();
    let mut roots = vec![("w".to_string(), WorkspaceKind::TypeChecking)];
    if s.coin() {
        roots.push(("w/n".into(), WorkspaceKind::SitePackages));
    }
    let cfg = Config { roots, fallback: true };
    let mut v = build(&sc, &cfg, &log);
    let mut open = vec![];
    for f in &files {
        if f.starts_with("w") && s.chance(1, 8) {
            let p = pws(&*v.handler, &sc.p(f));
            let _ = v.store_in_memory_file(true, p, format!("buffer of {f}").into(), |_, _, c| F::new(c));
            open.push(f.clone());
        }
    }
    let n = 2 + s.n(5);
    let plans: Vec<Vec<(usize, usize)>> = (0..n).map(|_| (0..4 + s.n(20)).map(|_| (if s.chance(1, 60) { 0 } else { 1 + s.n(4) }, s.n(files.len()))).collect()).collect();
    let start = Barrier::new(n);
    let err: Mutex<Option<String>> = Mutex::new(None);
    let added: Mutex<usize> = Mutex::new(0);
    let missed: Mutex<Vec<(String, FileIndex)>> = Mutex::new(vec![]);
    std::thread::scope(|t| {
        for plan in &plans {
            let (v, sc, files, start, err, added, missed) = (&v, &sc, &files, &start, &err, &added, &missed);
            t.spawn(move || {
                start.wait();
                for (op, i) in plan {
                    let p = pws(&*v.handler, &sc.p(&files[*i]));
                    match op {
                        0 => {
                            if v.add_workspace_without_full_access(npath(&*v.handler, &sc.p("x")), WorkspaceKind::SitePackages) {
                                *added.lock().unwrap() += 1;
                            }
                        }
                        1 => {
                            if let Some(DirOrFile::File(f)) = v.search_path(true, &p) {
                                let a = v.ensure_file_index(&f);
                                if f.get_file_index() != Some(a) {
                                    *err.lock().unwrap() = Some(format!("{}: two indexes {a} {:?}", files[*i], f.get_file_index()));
                                }
                            }
                        }
                        2 => {
                            // an import of something that is not there
                            if let Some(DirOrFile::File(f)) = v.search_path(true, &p) {
                                let a = v.ensure_file_index(&f);
                                let name = format!("missing{}.py", i % 3);
                                f.parent.with_entries(v, |e| {
                                    if e.search(&name).is_none() {
                                        e.add_missing_entry_callback(a)(&name);
                                    } else {
                                        e.add_missing_entry_callback(a)(&name);
                                    }
                                });
                                let dir = files[*i].rsplit_once('/').unwrap().0;
                                missed.lock().unwrap().push((format!("{dir}/{name}"), a));
                            }
                        }
                        _ => {
                            if let Some(DirOrFile::File(f)) = v.search_path(true, &p) {
                                let r = v.ensure_file_for_file_entry(f, false, |_, c| F::new(c));
                                let got = r.and_then(|x| v.file(x)).map(|f| f.code.to_string());
                                let ok = got.as_ref().is_some_and(|g| g.ends_with(&format!(" of {}", files[*i])));
                                if !ok {
                                    *err.lock().unwrap() = Some(format!("{} was loaded as {got:?}", files[*i]));
                                }
                            }
                        }
                    }
                }
            });
        }
    });
    if let Some(e) = err.into_inner().unwrap() {
        fail!("thread", "{e}");
    }
    let want_x = plans.iter().flatten().any(|p| p.0 == 0);
    ensure!(added.into_inner().unwrap() == want_x as usize, "added", "a workspace was not added exactly once");
    let mut indexes = BTreeSet::new();
    for f in &files {
        let p = pws(&*v.handler, &sc.p(f));
        let is_open = open.contains(f);
        let want = if is_open { Some(format!("buffer of {f}")) } else { sc.read(f) };
        let want = want.filter(|_| f.starts_with("w") || want_x);
        let got = match v.search_path(true, &p) {
            Some(DirOrFile::File(e)) => {
                let i = v.ensure_file_for_file_entry(e.clone(), false, |_, c| F::new(c));
                ensure!(i == e.get_file_index(), "index", "{f} has two indexes");
                if let Some(i) = i {
                    ensure!(indexes.insert(i), "shared-index", "{f} has the index of another file");
                    ensure!(*v.file_path(i) == p, "index-path", "the index of {f} has the path {}", v.file_path(i).as_uri());
                }
                i.and_then(|i| v.file(i)).map(|f| f.code.to_string())
            }
            _ => None,
        };
        ensure!(got == want, "content", "{f} should be {want:?}, but is {got:?}");
    }
    ensure!(v.files.len() == indexes.len(), "states", "there are {} file states for {} files", v.files.len(), indexes.len());
    // All that missed a file are told when it comes
    let missed = missed.into_inner().unwrap();
    if !missed.is_empty() {
        for i in 0..v.files.len() {
            if let Some(f) = v.file(FileIndex(i as u32)) {
                *f.cache.lock().unwrap() = Some(1);
            }
        }
        let name = missed[s.n(missed.len())].0.clone();
        sc.write(&name, "now");
        let a = v.handler.unchecked_abs_path(&sc.p(&name));
        let _ = v.invalidate_path(true, &a);
        for (m, i) in &missed {
            if *m == name {
                ctx.class("missed");
                let stale = v.file(*i).is_some_and(|f| f.cache.lock().unwrap().is_some());
                ensure!(!stale, "missed", "a file that missed {name} was not invalidated when it came");
            }
        }
    }
    ctx.nontrivial(&format!("{plans:?} {open:?}"));
    ctx.class(if want_x { "late_workspace" } else { "no_late_workspace" });
    Ok(())
}
