//! V05: paths as text.
use std::borrow::Cow;
use std::path::Path;
use std::sync::Arc;
use vfs::*;
use vpcore::*;

const NAMES: &[&str] = &["a", "b", "foo", "Foo", "a.py", "b.pyi", "é", "日本", "x y", "...", "a..", ".h", "foo.bar", "src", "𝕏", "-", "a\\b", "%20", "~", "foobar"];

fn comps(s: &mut Src, max: usize) -> Vec<String> {
    (0..s.n(max + 1)).map(|_| s.pick(NAMES).to_string()).collect()
}
pub fn join(c: &[String]) -> String {
    format!("/{}", c.join("/"))
}
/// The same path, written with needless parts.
fn noisy(s: &mut Src, c: &[String]) -> String {
    let mut out = String::new();
    let noise = |s: &mut Src, out: &mut String, depth: usize| {
        while s.chance(1, 4) {
            match s.n(4) {
                0 => out.push('/'),
                1 => out.push_str("/."),
                2 => {
                    out.push('/');
                    out.push_str(s.pick(NAMES));
                    out.push_str("/..");
                }
                _ => {
                    if depth == 0 {
                        // The parent of the root is the root
                        out.push_str("/..");
                    }
                }
            }
        }
    };
    for (i, x) in c.iter().enumerate() {
        noise(s, &mut out, i);
        out.push('/');
        out.push_str(x);
    }
    noise(s, &mut out, c.len());
    if out.is_empty() {
        out.push('/');
    }
    out
}

fn resolve(base: &[String], rel: &str) -> Vec<String> {
    let mut st: Vec<String> = if rel.starts_with('/') { vec![] } else { base.to_vec() };
    for x in rel.split('/') {
        match x {
            "" | "." => (),
            ".." => {
                st.pop();
            }
            _ => st.push(x.to_string()),
        }
    }
    st
}

fn abs(h: &dyn VfsHandler, p: &str) -> Arc<AbsPath> {
    h.unchecked_abs_path_from_uri(p.into())
}

pub fn v05(s: &mut Src, ctx: &mut Ctx) -> R {
    let h = SimpleLocalFS::without_watcher();
    let h: &dyn VfsHandler = &h;
    let a = comps(s, 5);
    let mut b = comps(s, 5);
    if s.coin() {
        // Paths that are related
        let k = s.n(a.len() + 1);
        let rest = comps(s, 3);
        b = a[..k].iter().cloned().chain(rest).collect();
    }
    let (pa, pb) = (join(&a), join(&b));
    ctx.note("a", pa.clone());
    ctx.note("b", pb.clone());
    // normalization
    let na = noisy(s, &a);
    ctx.note("noisy", na.clone());
    let x = abs(h, &na);
    let n = h.normalize_path(&x);
    ensure!(n.to_string() == pa, "normalize", "{na:?} is normalized to {n} instead of {pa}");
    let borrowed = matches!(n, Cow::Borrowed(_));
    ensure!(borrowed == (na == pa), "normalize-copy", "{na:?}: borrowed {borrowed}");
    let rc = h.normalize_rc_path(x.clone());
    ensure!(rc.to_string() == pa, "normalize-rc", "{na:?} is normalized to {rc}");
    let again = h.normalize_path(&rc);
    ensure!(again.to_string() == pa, "idempotent", "{pa} is normalized to {again}");
    if pa != "/" {
        let n = h.normalize_unchecked_abs_path(&na);
        ensure!(n.to_string() == pa, "normalize-unchecked", "{na:?} is normalized to {n}");
        let n = h.unchecked_abs_path(&format!("{pa}/"));
        ensure!(n.to_string() == pa, "trailing-separator", "{pa}/ became {n}");
        let n = h.unchecked_abs_path(&pa);
        ensure!(n.to_string() == pa, "unchecked", "{pa} became {n}");
    }
    // relative to each other
    let mut from = pa.clone();
    let mut to = pb.clone();
    if s.chance(1, 4) && to != "/" {
        to.push('/');
    }
    if s.chance(1, 4) && from != "/" {
        from.push('/');
    }
    let common = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
    let want = format!("{}{}", "../".repeat(b.len() - common), a[common..].join("/"));
    let got = h.path_relative_to(&abs(h, &from), Path::new(&to));
    ensure!(got.as_deref() == Some(&*want), "relative", "{from} relative to {to} is {got:?} instead of {want:?}");
    let rel = got.unwrap();
    ensure!(resolve(&b, &rel) == a, "relative-inverse", "{to}/{rel} is not {from}");
    ensure!(h.path_relative_to(&abs(h, &from), Path::new(pb.trim_start_matches('/'))).is_none(), "relative-root", "a path is relative to the relative {pb}");
    // absolute paths of something relative
    if !b.is_empty() {
        let mut r = noisy(s, &a).trim_start_matches('/').to_string();
        if s.chance(1, 4) {
            r = format!("../{r}");
        }
        if s.chance(1, 3) {
            r = format!("/{r}");
        }
        if !r.is_empty() && r != "/" {
            let want = join(&resolve(&b, &r));
            let got = h.normalize_rc_path(h.absolute_path(&abs(h, &pb), &r));
            ensure!(got.to_string() == want, "absolute", "{r:?} in {pb} is {got} instead of {want}");
            if s.coin() && !r.starts_with('/') {
                let got = h.normalize_rc_path(h.join(&abs(h, &pb), &r));
                ensure!(got.to_string() == want, "join", "{pb} joined with {r:?} is {got} instead of {want}");
            }
        }
    }
    // the parts of a path
    let got = h.parent_of_absolute_path(&abs(h, &pa)).map(|x| x.to_string());
    let want = (!a.is_empty()).then(|| join(&a[..a.len() - 1]));
    ensure!(got == want, "parent", "the parent of {pa} is {got:?} instead of {want:?}");
    let plain = a.join("/");
    let (first, rest) = h.split_off_first_item(&plain);
    let want = (a.first().map_or("", |x| x.as_str()), (a.len() > 1).then(|| a[1..].join("/")));
    ensure!((first, rest.map(str::to_string)) == want, "split-first", "{plain} is split into {first:?} {rest:?}");
    let (rest, last) = h.split_off_last_item(&plain);
    let want = ((a.len() > 1).then(|| a[..a.len() - 1].join("/")), a.last().map_or("", |x| x.as_str()));
    ensure!((rest.map(str::to_string), last) == want, "split-last", "{plain} is split into {rest:?} {last:?}");
    let inside = b.len() >= a.len() && b[..a.len()] == a[..];
    ensure!(abs(h, &pa).contains_sub_file(&abs(h, &pb)) == inside, "contains", "{pa} contains {pb}: should be {inside}");
    // conversions keep the text
    let o: Arc<AbsPath> = (*abs(h, &pa)).to_owned();
    let o2: Arc<AbsPath> = AbsPath::to_owned(&o);
    drop(o);
    let t = std::thread::spawn(move || o2.to_string()).join().unwrap();
    ensure!(t == pa, "owned", "a copy of {pa} is {t}");
    let np = h.normalize_rc_path(abs(h, &pa));
    let np2: Arc<NormalizedPath> = NormalizedPath::to_owned(&np);
    ensure!(np2 == np && NormalizedPath::arc_to_str(np2.clone()).as_ref() == pa && NormalizedPath::arc_to_abs_path(np2).to_string() == pa, "owned-normalized", "a copy of {pa} differs");
    let uri = PathWithScheme::with_file_scheme(np.clone()).as_uri();
    ensure!(uri == format!("file://{pa}"), "uri", "{pa} has the uri {uri}");
    let uri = PathWithScheme::new(Arc::new("untitled".into()), np).as_uri();
    ensure!(uri == format!("untitled://{pa}"), "uri", "{pa} has the uri {uri}");
    ctx.class(if common > 0 { "related" } else { "unrelated" });
    ctx.nontrivial(&format!("{na} {pb}"));
    glob(s, ctx, h)
}

pub fn match_name(p: &[char], t: &[char]) -> bool {
    match p.first() {
        None => t.is_empty(),
        Some('*') => match_name(&p[1..], t) || (!t.is_empty() && match_name(p, &t[1..])),
        Some('?') => !t.is_empty() && match_name(&p[1..], &t[1..]),
        Some('[') => {
            let end = p.iter().position(|c| *c == ']').unwrap();
            let (neg, set) = if p[1] == '!' { (true, &p[2..end]) } else { (false, &p[1..end]) };
            let Some(c) = t.first() else { return false };
            let mut hit = false;
            let mut i = 0;
            while i < set.len() {
                if i + 2 < set.len() && set[i + 1] == '-' {
                    hit |= set[i] <= *c && *c <= set[i + 2];
                    i += 3;
                } else {
                    hit |= set[i] == *c;
                    i += 1;
                }
            }
            hit != neg && match_name(&p[end + 1..], &t[1..])
        }
        Some(c) => t.first() == Some(c) && match_name(&p[1..], &t[1..]),
    }
}
fn match_path(p: &[String], t: &[String]) -> bool {
    match p.first() {
        None => t.is_empty(),
        Some(x) if x == "**" => {
            if p.len() == 1 {
                return !t.is_empty();
            }
            match_path(&p[1..], t) || (!t.is_empty() && match_path(p, &t[1..]))
        }
        Some(x) => {
            let Some(y) = t.first() else { return false };
            let x: Vec<char> = x.chars().collect();
            let y: Vec<char> = y.chars().collect();
            match_name(&x, &y) && match_path(&p[1..], &t[1..])
        }
    }
}

fn glob(s: &mut Src, ctx: &mut Ctx, h: &dyn VfsHandler) -> R {
    const PARTS: &[&str] = &["*", "?", "[ab]", "[!a]", "[a-z]", "*.py", "a", "b", "foo", "*a*", "f?o", ".py", "é", "B", "[A-Z]"];
    const WORDS: &[&str] = &["a", "b", "foo", "Foo", "fao", "a.py", "b.py", "B", "A", "é", ".py", "ab", "aé", "FOO", "b.PY", "foofoo", "x.py"];
    let cwd: Vec<String> = vec!["r".into(), "a".into()];
    let mut pat: Vec<String> = vec![];
    for _ in 0..1 + s.n(4) {
        if s.chance(1, 4) && pat.last().is_none_or(|x| x != "**") {
            pat.push("**".into());
        } else {
            let mut p = String::new();
            for _ in 0..1 + s.n(2) {
                let part = *s.pick(PARTS);
                if p.ends_with('*') && part.starts_with('*') {
                    continue;
                }
                p.push_str(part);
            }
            pat.push(p);
        }
    }
    let mut text = pat.join("/");
    let full: Vec<String>;
    match s.n(4) {
        0 => {
            text = format!("/{text}");
            full = pat;
        }
        1 => {
            text = format!("../{text}");
            full = cwd[..1].iter().cloned().chain(pat).collect();
        }
        2 => {
            text = format!("./{text}");
            full = cwd.iter().cloned().chain(pat).collect();
        }
        _ => full = cwd.iter().cloned().chain(pat).collect(),
    }
    let g = match GlobAbsPath::new(h, &abs(h, &join(&cwd)), &text) {
        Ok(g) => g,
        Err(e) => fail!("glob-error", "{text:?}: {e}"),
    };
    ensure!(g.as_str() == join(&full), "glob-text", "{text:?} became {:?}", g.as_str());
    let simple = !text.contains(['*', '?', '[', ']']);
    let got = g.maybe_simple_path().map(str::to_string);
    ensure!(got == simple.then(|| join(&full)), "glob-simple", "{text:?}: {got:?}");
    for _ in 0..6 {
        // a path that may match: the pattern's parts with words
        let mut t: Vec<String> = vec![];
        for p in &full {
            if p == "**" {
                for _ in 0..s.n(3) {
                    t.push(s.pick(WORDS).to_string());
                }
            } else if p.contains(['*', '?', '[']) || s.chance(1, 8) {
                t.push(s.pick(WORDS).to_string());
            } else if s.chance(1, 8) {
                t.push(p.to_uppercase());
            } else {
                t.push(p.clone());
            }
        }
        if s.chance(1, 6) {
            t.push(s.pick(WORDS).to_string());
        }
        if s.chance(1, 10) {
            t.pop();
        }
        if t.is_empty() {
            continue;
        }
        let want = match_path(&full, &t);
        let path = join(&t);
        let got = g.matches(h, &abs(h, &path));
        ensure!(got == want, "glob", "{:?} matches {path}: {got}, should be {want}", g.as_str());
        ctx.class(if want { "glob_match" } else { "glob_no_match" });
    }
    Ok(())
}
