//! Comments that silence errors, ranges, edits, and the bindings of names.
use crate::model::*;
use crate::oracle::ask;
use crate::p_parse::{completed, program};
use parsa_python::{NonterminalType as N, PyNode, PyNodeType, TerminalType as T, parse};
use parsa_python_cst::*;
use pygen::*;
use vpcore::*;

// ---------------------------------------------------------------- C04
/// `§` marks the places of comments.
const CODE: &[&str] = &[
    "x = 1§\n",
    "x = f(§\n    a,§\n    b§\n)§\n",
    "def f(a: int) -> str:§\n    return a§\n",
    "class A(B):§\n    x: int = 'é'§\n\n    y = [§\n        1,§\n    ]§\n",
    "a = '''\nb''' + c§\n",
    "a = b + \\\n    c§\n",
    "import a; from b import (§\n    c§\n)§\n",
    "if x:§\n    pass§\nelse:§\n    é = 'ü'§; del é§\n",
    "§\n",
    "    §\n",
    "print('''ä''')§\n",
    "@a§\ndef g(): ...§\n",
    "f\"{x}\" f'''\n{y}\n'''§\n",
    "x = {§\n    'a': 1, §\n    **b} §\n",
    "assert a, (\n    b)§\n",
];
const WORDS: &[&str] = &[
    " foo",
    "",
    " type: int",
    " type: ignored",
    " type: ignore[",
    " type: ignore[]",
    " types: ignore",
    " Type: ignore",
    "type ignore",
    " noqa: type: ignore",
    " type: Ignore",
    " zuban ignore",
    " é type:",
    "\ttype: ignore",
    " mypy ignore",
    " type: ignore[a] b] c",
    " type: ignorex[a]",
    "! zuban: ignore",
];
const KINDS: &[&str] = &["type", "zuban"];
const CODES: &[&str] = &["a", "attr-defined", "a, b", "a,b", " a ", "call-overload ,  x", "é"];

#[derive(Clone, Debug)]
struct Piece {
    at: u32, // of the #
    codes: Option<(String, u32)>,
    kind: &'static str,
}

/// Writes comments and remembers what silences errors.
fn comment(out: &mut String, s: &mut Src, pieces: &mut Vec<Piece>, dense: u64) {
    if !s.chance(dense, 8) {
        return;
    }
    if s.chance(7, 8) {
        out.push_str(s.pick(&["  ", " ", ""]));
    }
    for _ in 0..s.range(1, 2) {
        let at = out.len() as u32;
        out.push('#');
        if s.chance(1, 3) {
            out.push_str(s.pick(WORDS));
        } else {
            let kind = *s.pick(KINDS);
            out.push_str(s.pick(&[" ", "", "   "]));
            out.push_str(kind);
            out.push(':');
            out.push_str(s.pick(&[" ", "", "  "]));
            out.push_str("ignore");
            let codes = if s.chance(2, 3) {
                out.push_str(s.pick(&["", " "]));
                out.push('[');
                let c = *s.pick(CODES);
                let start = out.len() as u32;
                out.push_str(c);
                out.push(']');
                Some((c.to_string(), start))
            } else {
                None
            };
            if codes.is_none() {
                out.push_str(s.pick(&["", "  ", " reason", "\twhy", "\t", " \t[x"]));
            } else {
                out.push_str(s.pick(&["", "  "]));
            }
            pieces.push(Piece { at, codes, kind });
        }
    }
}

fn show(x: &Option<TypeIgnoreComment>) -> String {
    match x {
        None => "none".into(),
        Some(TypeIgnoreComment::WithoutCode) => "all".into(),
        Some(TypeIgnoreComment::WithCodes { codes, kind, codes_start_at_index, codes_of_later_type_ignores }) => {
            format!("{kind} {codes:?}@{codes_start_at_index} later {codes_of_later_type_ignores:?}")
        }
    }
}

fn expect<'p>(ps: impl Iterator<Item = &'p Piece>) -> String {
    let ps: Vec<&Piece> = ps.collect();
    if ps.is_empty() {
        return "none".into();
    }
    if ps.iter().any(|p| p.codes.is_none()) {
        return "all".into();
    }
    let c: Vec<_> = ps.iter().map(|p| p.codes.clone().unwrap()).collect();
    format!("{} {:?}@{} later {:?}", ps[0].kind, c[0].0, c[0].1, c[1..].iter().map(|x| &x.0).collect::<Vec<_>>())
}

fn line_end(code: &str, at: u32) -> u32 {
    code[at as usize..].find(['\n', '\r']).map_or(code.len() as u32, |i| at + i as u32)
}

fn leaf_list<'t>(tree: &'t parsa_python::PyTree) -> Vec<PyNode<'t>> {
    let m = model(tree);
    m.leaves.iter().map(|l| m.nodes[*l].node).collect()
}

fn is_layout(n: &PyNode) -> bool {
    matches!(n.type_(), PyNodeType::Terminal(T::Newline | T::Indent | T::Dedent | T::Endmarker | T::ErrorDedent))
}

/// The tree without positions.
fn shape(tree: &parsa_python::PyTree) -> String {
    let m = model(tree);
    let mut o = String::new();
    for n in &m.nodes {
        o.push_str(&format!("{}{}{:?}\n", " ".repeat(n.depth), n.node.type_str(), if n.node.is_leaf() && !is_layout(&n.node) { n.node.as_code() } else { "" }));
    }
    o
}

pub fn c04(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut code = String::new();
    let mut pieces = vec![];
    let mut directives: Vec<(u32, String)> = vec![];
    let eol = *s.pick(&["\n", "\r\n", "\r"]);
    let dense = s.range(1, 7) as u64;
    if s.chance(1, 10) {
        code.push('\u{feff}');
    }
    let mut head_end = None;
    let lines = s.range(0, 3);
    for _ in 0..lines {
        match s.n(3) {
            // (directly behind a byte order mark is not judged)
            0 if code != "\u{feff}" => {
                let at = code.len();
                code.push_str("# mypy: ");
                let d = s.pick(&["strict", "disallow-any-expr, no-warn-return-any", "disable-error-code=\"a, b\"", "é=1", ""]);
                code.push_str(d);
                if at == 0 || eol != "\r" && code.as_bytes()[at - 1] == b'\n' {
                    directives.push(((at + 8) as u32, d.to_string()));
                }
            }
            1 => code.push_str(s.pick(&[" # mypy: strict", "#mypy: strict", "# mypy strict", "# Mypy: a", ""])),
            _ => comment(&mut code, s, &mut pieces, 8),
        }
        code.push_str(eol);
    }
    for _ in 0..s.range(1, 4) {
        let t = s.pick(CODE);
        if head_end.is_none() && t.trim_start() != "§\n" {
            head_end = Some(code.len() as u32);
        }
        for (i, part) in t.split('§').enumerate() {
            if i > 0 && !part.starts_with(';') {
                comment(&mut code, s, &mut pieces, dense);
            }
            code.push_str(&part.replace('\n', eol));
        }
    }
    if s.chance(1, 6) {
        let n = code.trim_end_matches(['\r', '\n']).len();
        code.truncate(n);
    }
    ctx.note("input", &code);
    let tree = Tree::parse(code.clone().into_boxed_str());
    let raw = parse(code.clone().into_boxed_str());
    // the start of the file
    let head = head_end.unwrap_or(u32::MAX);
    let want = match expect(pieces.iter().filter(|p| p.at < head)).as_str() {
        "none" => "Ok(false)".to_string(),
        "all" => "Ok(true)".to_string(),
        _ => format!("Err({:?})", pieces[0].codes.as_ref().unwrap().0),
    };
    let got = format!("{:?}", tree.has_type_ignore_at_start());
    ensure!(got == want, "at-start", "type: ignore at the start: {got} instead of {want}");
    // inline configuration
    if eol != "\r" {
        let got: Vec<(u32, String)> = tree.mypy_inline_config_directives().map(|(i, t)| (i, t.trim_end_matches('\r').to_string())).collect();
        ensure!(got == directives, "directives", "inline directives {got:?} instead of {directives:?}");
    }
    // regions between tokens
    let leaves: Vec<PyNode> = leaf_list(&raw).into_iter().filter(|n| !is_layout(n)).collect();
    if leaves.is_empty() {
        return Ok(());
    }
    for _ in 0..12 {
        let a = s.n(leaves.len());
        let b = a + s.n((leaves.len() - a).min(8));
        let (start, end) = (leaves[a].start(), leaves[b].end());
        let stop = line_end(&code, end);
        let want = expect(pieces.iter().filter(|p| p.at >= start && p.at < stop));
        let got = show(&tree.type_ignore_comment_for(start, end));
        ensure!(got == want, "region", "comments for {start}..{end}: {got} instead of {want}");
        ctx.class(want.split(' ').next().unwrap());
    }
    // adding a code
    for _ in 0..3 {
        let at = leaves[s.n(leaves.len())].start();
        let stop = line_end(&code, at);
        let here: Vec<&Piece> = pieces.iter().filter(|p| p.at >= at && p.at < stop).collect();
        let kind = *s.pick(KINDS);
        let other = here.first().is_some_and(|p| p.kind != kind);
        let all = here.iter().any(|p| p.codes.is_none());
        let inside = code[at as usize..stop as usize].ends_with('\\') || raw.nodes().any(|l| (l.is_leaf() || l.is_type(PyNodeType::Nonterminal(N::fstring))) && l.start() < stop && l.end() > stop && !is_layout(&l));
        let before = show(&tree.type_ignore_comment_for(at, at));
        let Some(ins) = tree.insertion_point_for_type_ignore(at) else {
            ensure!(all || inside, "no-insertion", "no place for a comment for {at} with {before}");
            ctx.class("no place");
            continue;
        };
        ensure!(!all && (!inside || !here.is_empty()), "insertion", "a place for a comment for {at} at {} with {before}", ins.insertion_index);
        let Some(add) = ins.format_for_kind(kind, "new-code") else {
            ensure!(other, "no-format", "no text for {kind} at {at} with {before}");
            continue;
        };
        ensure!(!other, "format", "text {add:?} for {kind} at {at} with {before}");
        let mut new = code.clone();
        new.insert_str(ins.insertion_index as usize, &add);
        ctx.note("edited", &new);
        let t2 = Tree::parse(new.clone().into_boxed_str());
        let raw2 = parse(new.clone().into_boxed_str());
        ensure!(shape(&raw) == shape(&raw2), "edit-changes-code", "adding {add:?} at {} changes the code", ins.insertion_index);
        let Some(TypeIgnoreComment::WithCodes { codes, codes_of_later_type_ignores, .. }) = t2.type_ignore_comment_for(at, at) else {
            fail!("edit-lost", "after adding {add:?} at {}: {}", ins.insertion_index, show(&t2.type_ignore_comment_for(at, at)));
        };
        let mut have: Vec<String> = codes.split(',').map(|c| c.trim().to_string()).collect();
        have.extend(codes_of_later_type_ignores.iter().flat_map(|c| c.split(',')).map(|c| c.trim().to_string()));
        let mut want: Vec<String> = here.iter().flat_map(|p| p.codes.as_ref().unwrap().0.split(',').map(|c| c.trim().to_string())).collect();
        want.push("new-code".into());
        have.sort();
        want.sort();
        ensure!(have == want, "edit-codes", "after adding: {have:?} instead of {want:?}");
        ctx.class("added");
    }
    if !pieces.is_empty() {
        ctx.nontrivial(&code);
    }
    Ok(())
}

// ---------------------------------------------------------------- C06
pub fn check_ranges(text: &str, s: &mut Src, ctx: &mut Ctx) -> R {
    let tree = Tree::parse(text.into());
    let code = tree.code().to_string();
    let raw = parse(text.into());
    // folding
    let valid = has_error(&raw).is_none();
    let folds: Vec<(u32, u32)> = tree.folding_blocks().collect();
    for (a, b) in &folds {
        ensure!(a <= b && (*b as usize) <= code.len(), "fold-range", "folding range {a}..{b}");
    }
    let mut spans: Vec<(u32, u32)> = vec![];
    if valid {
        if let Some(r) = ask("fold", &code)
            && let Some(r) = r.strip_prefix("OK ")
        {
            let mut f = folds.clone();
            f.sort();
            let got = f.iter().map(|(a, b)| format!("{a}-{b}")).collect::<Vec<_>>().join(" ");
            ensure!(got == r, "folds", "folding ranges {got}, blocks of CPython {r}");
            ctx.count("blocks", folds.len() as u64);
        }
        if let Some(r) = ask("spans", &code)
            && let Some(r) = r.strip_prefix("OK ")
        {
            spans = r.split_whitespace().map(|x| x.split_once('-').unwrap()).map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap())).collect();
        }
    }
    // selection
    let b: Vec<u32> = (0..=code.len()).filter(|i| code.is_char_boundary(*i)).map(|i| i as u32).collect();
    let some: Vec<u32> = if b.len() <= 150 { b } else { (0..150).map(|_| *s.pick(&b)).collect() };
    for pos in some {
        let rs: Vec<_> = tree.selection_ranges(pos).take(10_000).map(|r| (r.start, r.end)).collect();
        ensure!(rs.len() < 10_000, "selection-endless", "selection at {pos} does not end");
        ensure!(!rs.is_empty(), "selection-empty", "no selection at {pos}");
        for r in &rs {
            ensure!(r.0 <= pos && pos <= r.1 && r.1 as usize <= code.len(), "selection-outside", "selection ranges at {pos}: {rs:?}");
            ensure!(code.is_char_boundary(r.0 as usize) && code.is_char_boundary(r.1 as usize), "selection-boundary", "{r:?}");
        }
        for w in rs.windows(2) {
            ensure!(
                w[1].0 <= w[0].0 && w[1].1 >= w[0].1 && w[0] != w[1],
                "selection-order",
                "selection ranges at {pos} do not grow: {rs:?}"
            );
        }
        for sp in spans.iter().filter(|x| x.0 < pos && pos < x.1) {
            ensure!(rs.contains(sp), "selection-misses", "selection ranges at {pos} are {rs:?} without the expression {sp:?}");
        }
        ctx.count("selections", 1);
    }
    if code.len() > 20 {
        ctx.nontrivial(&code);
    }
    Ok(())
}

pub fn c06(s: &mut Src, ctx: &mut Ctx) -> R {
    let text = if s.chance(2, 3) {
        program(s, ctx, 60).1
    } else {
        let (t, kind) = tame_text(s, false);
        ctx.class(kind);
        t
    };
    ctx.note("input", &text);
    check_ranges(&text, s, ctx)
}
pub fn c06_text(text: &str, ctx: &mut Ctx) -> R {
    check_ranges(text, &mut Src::from_choices(vec![]), ctx)
}

// ---------------------------------------------------------------- C07
fn scope_key(s: &Scope, tree: &Tree) -> String {
    match s {
        Scope::Module => "M".into(),
        Scope::Class(c) => format!("ClassDef@{}", tree.node_start_position(c.index())),
        Scope::Function(f) => format!("FunctionDef@{}", tree.node_start_position(f.index())),
        Scope::Lambda(l) => format!("Lambda@{}", tree.node_start_position(l.index())),
    }
}

fn definer(d: &DefiningStmt, tree: &Tree) -> String {
    let kind = match d {
        DefiningStmt::FunctionDef(_) => "FunctionDef",
        DefiningStmt::ClassDef(_) => "ClassDef",
        DefiningStmt::Assignment(_) => "Assignment",
        DefiningStmt::ImportName(_) => "ImportName",
        DefiningStmt::ImportFromAsName(_) => "ImportFromAsName",
        DefiningStmt::Lambda(_) => "Lambda",
        DefiningStmt::Comprehension(_) => return "Comprehension".into(),
        DefiningStmt::DictComprehension(_) => return "DictComprehension".into(),
        DefiningStmt::Walrus(_) => "Walrus",
        DefiningStmt::TryStmt(_) => "TryStmt",
        DefiningStmt::ForStmt(_) => "ForStmt",
        DefiningStmt::WithItem(_) => return "WithItem".into(),
        DefiningStmt::DelStmt(_) => "DelStmt",
        DefiningStmt::MatchStmt(_) => "MatchStmt",
        DefiningStmt::TypeAlias(_) => "TypeAlias",
        DefiningStmt::GlobalStmt(_) => "GlobalStmt",
        DefiningStmt::NonlocalStmt(_) => "NonlocalStmt",
        DefiningStmt::Error(_) => "Error",
    };
    format!("{kind}@{}", tree.node_start_position(d.index()))
}

pub fn check_binds(text: &str, ctx: &mut Ctx) -> R {
    let raw = parse(text.into());
    if has_error(&raw).is_some() {
        return Ok(());
    }
    let code = completed(text);
    let Some(want) = ask("binds", &code) else { return Ok(()) };
    let Some(want) = want.strip_prefix("OK ") else {
        ctx.class("rejected by CPython");
        return Ok(());
    };
    let tree = Tree::parse(text.into());
    let mut out = vec![];
    for n in tree.filter_all_names(None) {
        let scope = scope_key(&n.parent_scope(), &tree);
        let name = n.as_code();
        ensure!(n.is_reference() == n.name_def().is_none(), "is-reference", "{n:?}");
        if let Some(d) = n.name_def() {
            let by = d.expect_defining_stmt();
            let by_s = definer(&by, &tree);
            out.push(format!("def {name} {by_s} {scope}"));
            // other ways to the same answer
            let assigned = d.maybe_assignment_definition();
            ensure!(
                assigned.map(|a| a.index()) == if let DefiningStmt::Assignment(a) = &by { Some(a.index()) } else { None },
                "assignment-definition",
                "{name} at {} is defined by {by_s}, assignment {assigned:?}",
                n.start()
            );
            ensure!(
                d.maybe_import().is_some() == matches!(by, DefiningStmt::ImportName(_) | DefiningStmt::ImportFromAsName(_)),
                "import-definition",
                "{name} at {} is defined by {by_s}",
                n.start()
            );
            let key = tree.node_start_position(by.index());
            if let Some(f) = d.maybe_name_of_func() {
                ensure!(f.name().index() == n.index() && tree.node_start_position(f.index()) == key, "name-of-func", "{name}");
            }
            if let Some(c) = d.maybe_name_of_class() {
                ensure!(c.name().index() == n.index() && tree.node_start_position(c.index()) == key, "name-of-class", "{name}");
            }
            if let Some(f) = d.maybe_parent_function_of_param() {
                ensure!(
                    f.params().iter().any(|p| p.name_def().index() == d.index()) && tree.node_start_position(f.index()) == key,
                    "function-of-param",
                    "{name} at {}",
                    n.start()
                );
            }
        } else {
            match n.parent() {
                NameParent::Atom(_) => out.push(format!("ref {name} {} {scope}", n.start())),
                NameParent::Primary(_) | NameParent::PrimaryTarget(_) => out.push(format!("attr {name} {scope}")),
                NameParent::Kwarg(_) | NameParent::KeywordPattern(_) => out.push(format!("kw {name} {scope}")),
                NameParent::ImportFromAsName(_) | NameParent::DottedImportName(_) | NameParent::DottedPatternName(_) => out.push(format!("part {name} {scope}")),
                NameParent::FStringConversion(_) => {}
                x => fail!("name-parent", "{name} at {}: {x:?}", n.start()),
            }
        }
    }
    let m = model(&raw);
    for (i, n) in m.nodes.iter().enumerate() {
        match n.node.type_() {
            PyNodeType::Nonterminal(N::class_def) => {
                let c = ClassDef::by_index(&tree, n.node.index);
                let l: Vec<String> = c.search_potential_self_assignments().map(|(a, b)| format!("{}.{}", a.as_code(), b.as_code())).collect();
                out.push(format!("self ClassDef@{}: {}", n.node.start(), l.join(" ")));
            }
            PyNodeType::Nonterminal(N::function_def) => {
                let f = FunctionDef::by_index(&tree, n.node.index);
                let mut got = vec![];
                f.on_name_def_in_scope(&mut |d| got.push(d.index()));
                // the same from the child lists alone
                let mut want: Vec<u32> = f.params().iter().map(|p| p.name_def().index()).collect();
                let body = *n.children.last().unwrap();
                let mut stack = vec![body];
                while let Some(k) = stack.pop() {
                    let x = &m.nodes[k];
                    match x.node.type_() {
                        PyNodeType::Nonterminal(N::name_def) => want.push(x.node.index),
                        PyNodeType::Nonterminal(N::function_def | N::class_def) => want.push(m.nodes[x.children[1]].node.index),
                        PyNodeType::Nonterminal(N::lambda | N::t_primary) => {}
                        _ => stack.extend(x.children.iter().rev()),
                    }
                }
                ensure!(got == want, "names-of-function", "names defined in the function at {}: {got:?} instead of {want:?} (model node {i})", n.node.start());
                ctx.count("functions", 1);
            }
            _ => {}
        }
    }
    out.sort();
    let got = out.join("\n");
    ensure!(got == want, "bindings", "{}", first_diff(&got, want));
    ctx.count("names", out.len() as u64);
    if out.len() > 5 {
        ctx.nontrivial(text);
    }
    Ok(())
}

pub fn c07(s: &mut Src, ctx: &mut Ctx) -> R {
    let (_, text) = program(s, ctx, 90);
    ctx.note("input", &text);
    check_binds(&text, ctx)
}

// ---------------------------------------------------------------- C08
fn import_program(s: &mut Src, ctx: &mut Ctx) -> String {
    let mut g = Gen::new(s, 40);
    let n = g.s.n(4);
    let doc = g.s.chance(1, 3);
    if doc {
        let t = *g.s.pick(&["'doc'", "\"\"\"d\nd\"\"\""]);
        g.out.push(tk(K::Str, t));
        g.out.push(tk(K::Nl, ""));
    }
    for _ in 0..n {
        if g.s.coin() { g.import_from() } else { g.import_name() }
        if g.s.chance(1, 6) {
            g.o(";");
            g.simple_stmt();
        }
        g.out.push(tk(K::Nl, ""));
    }
    if g.s.chance(3, 4) {
        g.file(2, 4);
    }
    let toks = g.out.clone();
    ctx.class(if doc { "docstring" } else { "no docstring" });
    let mut t = render_random(&toks, s);
    if s.chance(1, 20) {
        t.insert(0, '\u{feff}');
    }
    t
}

pub fn check_imports(text: &str, ctx: &mut Ctx) -> R {
    let raw = parse(text.into());
    if has_error(&raw).is_some() {
        return Ok(());
    }
    let tree = Tree::parse(text.into());
    let code = tree.code().to_string();
    let name = "zzz_new";
    // a new import
    if let Some(r) = ask("impnew", &format!("{name}\n{code}"))
        && r.starts_with("OK ")
    {
        let at = tree.initial_imports_end_code_index() as usize;
        ensure!(at <= code.len() && code.is_char_boundary(at), "import-place", "imports end at {at}");
        let mut new = code.clone();
        new.insert_str(at, &format!("import {name}\n"));
        let got = ask("dump", &new).unwrap_or_default();
        ensure!(got == r, "new-import", "an import put to {at} gives a different program: {}", first_diff(&got, &r));
        ctx.class("new import");
        ctx.nontrivial(text);
    }
    // a new name in an import
    let m = model(&raw);
    let mut ims: Vec<&M> = m.nodes.iter().filter(|n| n.node.is_type(PyNodeType::Nonterminal(N::import_from))).collect();
    ims.sort_by_key(|n| n.node.start());
    for (k, n) in ims.iter().enumerate() {
        let imp = ImportFrom::by_index(&tree, n.node.index);
        if matches!(imp.unpack_targets(), ImportFromTargets::Star(_)) {
            continue;
        }
        let Some(r) = ask("impadd", &format!("{k}\n{name}\n{code}")) else { continue };
        if !r.starts_with("OK ") {
            return Ok(());
        }
        let p = imp.insertion_point_for_new_name(name);
        let mut new = code.clone();
        new.insert_str(p.insertion_code_index as usize, &p.addition);
        let got = ask("dump", &new).unwrap_or_default();
        ensure!(got == r, "new-name", "{:?} put to {} gives a different program: {}", p.addition, p.insertion_code_index, first_diff(&got, &r));
        ctx.class("new name");
    }
    Ok(())
}

pub fn c08(s: &mut Src, ctx: &mut Ctx) -> R {
    let text = import_program(s, ctx);
    ctx.note("input", &text);
    check_imports(&text, ctx)
}

// ---------------------------------------------------------------- C09
type Magic = std::collections::BTreeMap<(String, String), Vec<String>>;

fn magic() -> &'static Magic {
    static M: std::sync::OnceLock<Magic> = std::sync::OnceLock::new();
    M.get_or_init(|| {
        ask("magic", "")
            .unwrap()
            .lines()
            .map(|l| {
                let mut w = l.split(' ').map(str::to_string);
                ((w.next().unwrap(), w.next().unwrap()), w.collect())
            })
            .collect()
    })
}

pub fn check_operators(text: &str, ctx: &mut Ctx) -> R {
    let raw = parse(text.into());
    if has_error(&raw).is_some() {
        return Ok(());
    }
    let tree = Tree::parse(text.into());
    let m = model(&raw);
    let kid = |n: &M, i: usize| m.nodes[n.children[i]].node;
    // does the cursor at the start of the operator touch nothing else?
    let ends: std::collections::HashSet<u32> = m.leaves.iter().map(|l| m.nodes[*l].node.end()).collect();
    let free = |at: u32| !ends.contains(&at);
    let mut seen = 0;
    for n in &m.nodes {
        let PyNodeType::Nonterminal(t) = n.node.type_() else { continue };
        let i = n.node.index;
        let check = |o: Operation, op: PyNode, left: PyNode, right: PyNode| -> R {
            let Some(want) = magic().get(&("bin".to_string(), op.as_code().to_string())) else {
                fail!("operator", "{:?}", op.as_code());
            };
            ensure!(
                o.infos.operand == op.as_code() && o.infos.magic_method == want[0] && o.infos.reverse_magic_method == want[1],
                "methods",
                "{:?} is {:?}, CPython calls {want:?}",
                op.as_code(),
                o.infos
            );
            ensure!(o.left.start() == left.start() && o.left.end() == left.end(), "left", "left operand of {:?} at {}", op.as_code(), op.start());
            ensure!(o.right.start() == right.start() && o.right.end() == right.end(), "right", "right operand of {:?} at {}", op.as_code(), op.start());
            Ok(())
        };
        let goto = |op: PyNode, first: PyNode, method: &str| -> R {
            if !free(op.start()) {
                return Ok(());
            }
            match tree.goto_node(op.start()).1 {
                GotoNode::Operator { first: f, magic_method, operator } => ensure!(
                    magic_method == method && f.start() == first.start() && f.end() == first.end() && operator.index() == op.index,
                    "goto",
                    "{:?} at {} goes to {magic_method} of {}..{}, not to {method} of {}..{}",
                    op.as_code(),
                    op.start(),
                    f.start(),
                    f.end(),
                    first.start(),
                    first.end()
                ),
                x => fail!("goto-none", "{:?} at {} goes to {x:?}, not to {method}", op.as_code(), op.start()),
            }
            Ok(())
        };
        match t {
            N::sum | N::term | N::shift_expr | N::power | N::bitwise_and | N::bitwise_or | N::bitwise_xor => {
                let (l, op, r) = (kid(n, 0), kid(n, 1), kid(n, 2));
                let o = match t {
                    N::sum => Sum::by_index(&tree, i).as_operation(),
                    N::term => Term::by_index(&tree, i).as_operation(),
                    N::shift_expr => ShiftExpr::by_index(&tree, i).as_operation(),
                    N::power => Power::by_index(&tree, i).as_operation(),
                    N::bitwise_and => BitwiseAnd::by_index(&tree, i).as_operation(),
                    N::bitwise_or => BitwiseOr::by_index(&tree, i).as_operation(),
                    _ => BitwiseXor::by_index(&tree, i).as_operation(),
                };
                check(o, op, l, r)?;
                goto(op, l, &magic()[&("bin".into(), op.as_code().to_string())][0])?;
                seen += 1;
            }
            N::factor => {
                let (op, x) = (kid(n, 0), kid(n, 1));
                let (k, e) = Factor::by_index(&tree, i).unpack();
                ensure!(k.index() == op.index && e.start() == x.start() && e.end() == x.end(), "factor", "factor at {}", op.start());
                goto(op, x, &magic()[&("un".into(), op.as_code().to_string())][0])?;
                seen += 1;
            }
            N::comparison => {
                for (k, c) in Comparisons::by_index(&tree, i).iter().enumerate() {
                    let (l, op, r) = (kid(n, 2 * k), &m.nodes[n.children[2 * k + 1]], kid(n, 2 * k + 2));
                    let words: Vec<&str> = op.children.iter().map(|c| m.nodes[*c].node.as_code()).collect();
                    let first = m.nodes[op.children[0]].node;
                    let kind = match &c {
                        ComparisonContent::Equals(..) => "==",
                        ComparisonContent::NotEquals(..) => "!=",
                        ComparisonContent::Is(..) => "is",
                        ComparisonContent::IsNot(..) => "is not",
                        ComparisonContent::In(..) => "in",
                        ComparisonContent::NotIn(..) => "not in",
                        ComparisonContent::Ordering(o) => o.infos.operand,
                    };
                    ensure!(kind == words.join(" "), "comparison", "{words:?} is taken as {kind}");
                    ensure!(
                        c.left().start() == l.start() && c.left().end() == l.end() && c.right().start() == r.start() && c.right().end() == r.end(),
                        "comparison-sides",
                        "operands of {kind} at {}",
                        op.node.start()
                    );
                    if let ComparisonContent::Ordering(o) = &c {
                        check(*o, first, l, r)?;
                    }
                    if let Some(w) = magic().get(&("bin".into(), kind.to_string())) {
                        goto(first, l, &w[0])?;
                    }
                    seen += 1;
                }
            }
            N::augassign => {
                let (inplace, infos) = AugAssign::by_index(&tree, i).magic_methods();
                let w = &magic()[&("aug".into(), n.node.as_code().to_string())];
                ensure!(
                    inplace == w[0] && infos.magic_method == w[1] && infos.reverse_magic_method == w[2] && format!("{}=", infos.operand) == n.node.as_code(),
                    "inplace-methods",
                    "{:?} is {inplace} {infos:?}, CPython calls {w:?}",
                    n.node.as_code()
                );
                if free(n.node.start()) {
                    match tree.goto_node(n.node.start()).1 {
                        GotoNode::AugAssignOperator { inplace_magic_method, normal_magic_method, .. } => {
                            ensure!(inplace_magic_method == w[0] && normal_magic_method == w[1], "inplace-goto", "{:?} goes to {inplace_magic_method} {normal_magic_method}", n.node.as_code())
                        }
                        x => fail!("inplace-goto-none", "{:?} goes to {x:?}", n.node.as_code()),
                    }
                }
                seen += 1;
            }
            _ => {}
        }
    }
    ctx.count("operators", seen);
    if seen > 0 {
        ctx.nontrivial(text);
    }
    Ok(())
}

pub fn c09(s: &mut Src, ctx: &mut Ctx) -> R {
    let (_, text) = program(s, ctx, 60);
    ctx.note("input", &text);
    check_operators(&text, ctx)
}
