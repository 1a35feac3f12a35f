use crate::dump::dump;
use crate::model::*;
use crate::oracle::ask;
use crate::snippets::SNIPPETS;
use parsa_python::parse;
use parsa_python_cst::Tree;
use pygen::*;
use vpcore::*;

// ---------------------------------------------------------------- P01
/// The text which the tree stands for: the given one, with its last line terminated.
pub fn completed(text: &str) -> Box<str> {
    let mut t = text.to_string();
    if !t.ends_with('\n') {
        t.push('\n');
    }
    if t.ends_with("\\\n") || t.ends_with("\\\r\n") {
        t.push('\n');
    }
    t.into_boxed_str()
}

pub fn check_tiling(text: &str, ctx: &mut Ctx) -> R {
    let tree = parse(text.into());
    let completed = completed(text);
    ensure!(
        tree.as_code() == &*completed,
        "code",
        "the tree holds {:?} instead of the parsed text",
        clip(tree.as_code(), 400)
    );
    let text = &*completed;
    ensure!(tree.length() == tree.nodes().count(), "length", "length() disagrees with the number of nodes");
    let m = model(&tree);
    ensure!(
        m.nodes.len() == tree.length(),
        "reachability",
        "{} nodes stored, {} reachable from the root",
        tree.length(),
        m.nodes.len()
    );
    let root = tree.root_node();
    ensure!(root.type_str() == "file", "root", "root is {}", root.type_str());
    ensure!(root.end() as usize == text.len(), "root-end", "root ends at {} of {}", root.end(), text.len());
    let mut pos = 0usize;
    let mut rebuilt = String::new();
    for &l in &m.leaves {
        let n = m.nodes[l].node;
        let (s, e) = (n.start() as usize, n.end() as usize);
        ensure!(s >= pos, "overlap", "leaf {} {}..{} starts before {pos}", n.type_str(), s, e);
        ensure!(e <= text.len() && s <= e, "range", "leaf {}..{} of {}", s, e, text.len());
        ensure!(
            text.is_char_boundary(s) && text.is_char_boundary(e),
            "boundary",
            "leaf {} {}..{} not on character boundaries",
            n.type_str(),
            s,
            e
        );
        ensure!(n.as_code() == &text[s..e], "leaf-code", "leaf code differs");
        let gap = &text[pos..s];
        ensure!(
            gap_ok(gap, pos == 0),
            "gap",
            "text {gap:?} at {pos} is in no leaf (before {} {:?})",
            n.type_str(),
            n.as_code()
        );
        ensure!(n.prefix_to_previous_leaf() == gap, "prefix", "prefix of leaf at {s}: {:?} != {gap:?}", n.prefix_to_previous_leaf());
        rebuilt.push_str(n.prefix_to_previous_leaf());
        rebuilt.push_str(n.as_code());
        pos = e;
    }
    ensure!(rebuilt == text, "rebuild", "concatenated leaves give {rebuilt:?}");
    ensure!(root.start() == 0, "root-start", "root starts at {}", root.start());
    for n in &m.nodes[1..] {
        if n.node.is_leaf() {
            continue;
        }
        let cs = &n.children;
        ensure!(!cs.is_empty(), "empty-node", "{} has no children", n.node.type_str());
        let f = m.nodes[cs[0]].node;
        let l = m.nodes[*cs.last().unwrap()].node;
        ensure!(
            n.node.start() == f.start() && n.node.end() == l.end(),
            "span",
            "{} {}..{} but its children span {}..{}",
            n.node.type_str(),
            n.node.start(),
            n.node.end(),
            f.start(),
            l.end()
        );
    }
    if m.leaves.len() > 4 {
        ctx.nontrivial(text);
    }
    Ok(())
}

/// Only layout may be outside of leaves: blanks, comments, line joining, a byte order mark.
fn gap_ok(g: &str, start: bool) -> bool {
    let g = if start { g.strip_prefix('\u{feff}').unwrap_or(g) } else { g };
    let mut it = g.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            ' ' | '\t' | '\x0c' | '\n' | '\r' => {}
            '\\' => match it.next() {
                Some('\n') => {}
                Some('\r') => {}
                _ => return false,
            },
            '#' => {
                while let Some(&c) = it.peek() {
                    if c == '\n' || c == '\r' {
                        break;
                    }
                    it.next();
                }
            }
            _ => return false,
        }
    }
    true
}

pub fn p01(s: &mut Src, ctx: &mut Ctx) -> R {
    let (text, kind) = tame_text(s, true);
    ctx.class(kind);
    ctx.note("input", &text);
    check_tiling(&text, ctx)
}

// ---------------------------------------------------------------- P03 / P04
pub fn program(s: &mut Src, ctx: &mut Ctx, fuel: usize) -> (Vec<Tk>, String) {
    let f = 5 + s.n(fuel) as i64;
    let mut g = Gen::new(s, f);
    g.allow_same_quotes = true;
    g.file(5, 14);
    let feats: Vec<_> = g.features.iter().copied().collect();
    let toks = g.out;
    for f in feats {
        ctx.class(f);
    }
    let l = Layout::random(s);
    let mut text = render(&toks, l, s).text;
    if s.chance(1, 30) {
        text.insert(0, '\u{feff}');
        ctx.class("byte_order_mark");
    }
    (toks, text)
}

pub fn check_accepts(text: &str, ctx: &mut Ctx) -> R {
    let Some(o) = ask("syntax", text) else { return Ok(()) };
    if o != "OK" {
        ctx.class("reference_rejects");
        return Ok(());
    }
    let tree = parse(text.into());
    if let Some(e) = has_error(&tree) {
        fail!("rejects-valid", "valid for CPython, but: {e}");
    }
    ctx.nontrivial(text);
    Ok(())
}

pub fn p03(s: &mut Src, ctx: &mut Ctx) -> R {
    let (_, text) = program(s, ctx, 80);
    ctx.note("input", &text);
    check_accepts(&text, ctx)
}

pub fn check_structure(text: &str, ctx: &mut Ctx) -> R {
    let Some(o) = ask("ast", text) else { return Ok(()) };
    let Some(want) = o.strip_prefix("OK ") else {
        ctx.class("reference_rejects");
        return Ok(());
    };
    let tree = Tree::parse(text.into());
    let (got, _errors) = dump(&tree);
    if got != want {
        fail!("structure", "{}", first_diff(want, &got));
    }
    ctx.nontrivial(text);
    Ok(())
}

pub fn p04(s: &mut Src, ctx: &mut Ctx) -> R {
    let (_, text) = program(s, ctx, 80);
    ctx.note("input", &text);
    check_structure(&text, ctx)
}

// ---------------------------------------------------------------- P05
/// What CPython reports for texts that are no matter of the grammar, that this parser leaves to
/// later checks, or that newer Python versions allow.
const NOT_GRAMMAR: &[&str] = &[
    "unexpected EOF while parsing",
    "source code string cannot contain null bytes",
    "source code cannot contain null bytes",
    "f-string: invalid conversion character",
    "f-string: conversion type must come right after",
    "illegal target for annotation",
    "(unicode error)",
    "(value error)",
    "bytes can only contain ASCII",
    "too many nested",
    "f-string: expressions nested too deeply",
    "invalid escape",
    // the value of a token
    "imaginary number required",
    "real number required",
];

pub fn p05(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut t = gen_program(s, 40);
    mutate_tokens(&mut t, s);
    for x in &mut t {
        if x.t == "_" || x.t == "print" || x.t == "exec" {
            // `_()` is a class pattern here and nothing in CPython, which also knows Python 2's statements
            x.t = "a".into();
        } else if x.t == "t'{x}'" {
            // Python 3.14
            x.t = "'x'".into();
        }
    }
    let l = if s.coin() { Layout::canonical() } else { Layout::random(s) };
    let text = render(&t, l, s).text;
    if explosive(&text) {
        return Ok(());
    }
    ctx.note("input", &text);
    check_rejects(&text, ctx)
}

pub fn check_rejects(text: &str, ctx: &mut Ctx) -> R {
    let Some(o) = ask("syntax", text) else { return Ok(()) };
    let Some(e) = o.strip_prefix("ERR ") else {
        return Ok(());
    };
    let e: String = e.chars().filter(|c| !c.is_ascii_digit()).collect();
    let e = e.split(" (<unknown>").next().unwrap();
    let (kind, e) = e.split_once(": ").unwrap_or(("", e));
    if NOT_GRAMMAR.iter().any(|x| e.starts_with(x)) || kind == "ValueError" || kind == "UnicodeDecodeError" || kind == "TabError" || text.trim_end().ends_with('\\') {
        return Ok(());
    }
    if text.split(['\n', '\r']).any(|l| l.trim_start_matches([' ', '\t', '\x0c']) == "\\") {
        // CPython takes the blanks after a line continuation at the start of a line for indentation
        return Ok(());
    }
    if kind == "IndentationError" && e.starts_with("unindent") && text.contains('\t') {
        // like TabError: a tab counts like a blank here
        return Ok(());
    }
    ctx.class(&format!("{kind}: {}", clip(e, 40)));
    ctx.nontrivial(text);
    let tree = parse(text.into());
    if has_error(&tree).is_some() {
        return Ok(());
    }
    if text.contains('[') {
        // defaults of type parameters: Python 3.13
        for n in tree.nodes() {
            if n.type_str() == "type_param_default" || n.type_str() == "type_param_starred_default" {
                return Ok(());
            }
        }
    }
    if e.starts_with("multiple exception types") || tree.nodes().any(|n| n.type_str() == "except_expression" && n.as_code().contains(',')) {
        // Python 3.14
        return Ok(());
    }
    if std::env::var("VP_LIST").is_ok() {
        ctx.class(&format!("ACCEPTED {}", leniency(&tree)));
    } else {
        fail!(leniency(&tree), "CPython: {kind}: {e}, but there is no error in the tree");
    }
    Ok(())
}

/// Names the known places where the grammar takes more than Python's.
fn leniency(tree: &parsa_python::PyTree) -> &'static str {
    for n in tree.nodes() {
        let t = n.type_str();
        let star = || n.as_code().starts_with('*');
        let parent = || n.parent().unwrap();
        if t == "star_pattern" {
            let p = parent();
            let single = p.iter_children().count() == 1;
            let list = p.parent().is_some_and(|g| g.type_str() == "sequence_pattern" && g.as_code().starts_with('['));
            if single && !list {
                return "accepts:single-star-pattern";
            }
        } else if t == "key_value_pattern" {
            if n.nth_child(0).type_str() == "dotted_pattern_name" && !n.nth_child(0).as_code().contains('.') {
                return "accepts:name-as-mapping-key";
            }
        } else if t == "star_named_expressions" && n.parent().is_some_and(|p| p.type_str() == "subject_expr") {
            if star() && n.iter_children().count() == 1 {
                return "accepts:single-star-subject";
            }
        } else if t == "star_target_brackets" && n.as_code().starts_with('(') {
            let c: Vec<_> = n.iter_children().collect();
            if c.len() == 3 && c[1].as_code().starts_with('*') && !c[1].as_code().contains(',') {
                return "accepts:single-star-target";
            }
        }
    }
    "accepts"
}

// ---------------------------------------------------------------- real files
/// Python files of the reference's standard library.
pub fn stdlib() -> &'static [std::path::PathBuf] {
    static L: std::sync::OnceLock<Vec<std::path::PathBuf>> = std::sync::OnceLock::new();
    L.get_or_init(|| {
        let mut out = vec![];
        let mut stack = vec![std::path::PathBuf::from("/usr/lib/python3.12")];
        while let Some(d) = stack.pop() {
            let Ok(r) = std::fs::read_dir(&d) else { continue };
            for e in r.flatten() {
                let Ok(t) = e.file_type() else { continue };
                if t.is_dir() {
                    stack.push(e.path());
                } else if t.is_file() && e.path().extension().is_some_and(|x| x == "py") && e.metadata().is_ok_and(|m| m.len() < 200_000) {
                    out.push(e.path());
                }
            }
        }
        out.sort();
        out
    })
}

pub fn stdlib_text(i: usize, ctx: &mut Ctx) -> Option<String> {
    let p = stdlib().get(i)?;
    ctx.note("file", p.display().to_string());
    ctx.class("stdlib_file");
    std::fs::read_to_string(p).ok()
}

pub fn p03_fixed_count(_: bool) -> usize {
    SNIPPETS.len() + stdlib().len()
}

pub fn p03_fixed(i: usize, ctx: &mut Ctx) -> R {
    if let Some(t) = SNIPPETS.get(i) {
        return p03_text(t, ctx);
    }
    match stdlib_text(i - SNIPPETS.len(), ctx) {
        Some(t) => check_accepts(&t, ctx),
        None => Ok(()),
    }
}

pub fn p04_fixed(i: usize, ctx: &mut Ctx) -> R {
    if let Some(t) = SNIPPETS.get(i) {
        if i < 4 {
            // listed findings of P03
            return Ok(());
        }
        ctx.note("input", *t);
        return check_structure(t, ctx);
    }
    match stdlib_text(i - SNIPPETS.len(), ctx) {
        Some(t) => check_structure(&t, ctx),
        None => Ok(()),
    }
}

/// The known gaps of the grammar get a name of their own.
pub fn p03_text(t: &str, ctx: &mut Ctx) -> R {
    ctx.note("input", t);
    check_accepts(t, ctx).map_err(|mut f| {
        if t == "f\"{*a,}\"\n" {
            f.sig = "rejects-valid:star-expression-in-f-string".into();
        } else if t == "f\"{yield}\"\n" {
            f.sig = "rejects-valid:yield-in-f-string".into();
        } else if t == "if a:\n  b\n\x0cc\n" {
            f.sig = "rejects-valid:form-feed-starts-line".into();
        } else if t == "e\u{301} = 1\n" {
            f.sig = "rejects-valid:combining-mark-in-name".into();
        }
        f
    })
}
