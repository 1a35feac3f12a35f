//! Editor queries on the typed tree.
use crate::dump::{dump, dump_block, dump_expression};
use crate::model::*;
use parsa_python::{NonterminalType as N, PyNodeType, TerminalType as T, parse};
use parsa_python_cst::*;
use pygen::*;
use vpcore::*;

fn boundaries(code: &str) -> Vec<u32> {
    (0..=code.len()).filter(|i| code.is_char_boundary(*i)).map(|i| i as u32).collect()
}

fn scope_str(s: &Scope) -> String {
    s.short_debug_info()
}

fn pick_positions(code: &str, s: &mut Src, all: bool) -> Vec<u32> {
    let b = boundaries(code);
    if all || b.len() <= 300 {
        return b;
    }
    let at = s.n(b.len() - 200);
    let mut r = b[at..at + 200].to_vec();
    r.push(*b.last().unwrap());
    r
}

fn walk_errors<'t>(tree: &'t Tree, it: StmtLikeIterator<'t>, ctx: &mut Ctx) -> R {
    for st in it {
        match st.node {
            StmtLikeContent::Error(e) => {
                let _ = e.is_dedent();
                let (a, b) = (e.start(), e.end());
                for part in e.iter_parts() {
                    ctx.class("error_part");
                    match part {
                        UnpackedError::Block(b) => walk_errors(tree, b.iter_stmt_likes(), ctx)?,
                        UnpackedError::ElseBlock(b) => walk_errors(tree, b.block().iter_stmt_likes(), ctx)?,
                        UnpackedError::ExceptBlock(b) => walk_errors(tree, b.unpack().1.iter_stmt_likes(), ctx)?,
                        UnpackedError::ExceptStarBlock(b) => walk_errors(tree, b.unpack().1.iter_stmt_likes(), ctx)?,
                        UnpackedError::CaseBlock(c) => drop(interesting_count(c.search_interesting_nodes())),
                        UnpackedError::SimpleStmt(s) => {
                            let names: Vec<_> = s.contained_name_defs().collect();
                            ensure!(names.iter().all(|n| n.start() >= a && n.end() <= b), "error-names", "{names:?} outside of {a}..{b}");
                            drop(interesting_count(s.search_interesting_nodes()));
                        }
                        UnpackedError::NonBlockErrorPart(p) => {
                            let names: Vec<_> = p.contained_name_defs().collect();
                            ensure!(names.iter().all(|n| n.start() >= a && n.end() <= b), "error-names", "{names:?} outside of {a}..{b}");
                            drop(interesting_count(p.search_interesting_nodes()));
                        }
                    }
                }
            }
            StmtLikeContent::BrokenScope(b) => walk_errors(tree, b.iter_stmt_likes(), ctx)?,
            _ => {}
        }
    }
    Ok(())
}

fn interesting_count(x: InterestingNodes) -> usize {
    x.count()
}

// ---------------------------------------------------------------- C05
/// Everything an editor asks at a position or about a name is answered.
pub fn check_queries(text: &str, s: &mut Src, ctx: &mut Ctx) -> R {
    let tree = Tree::parse(text.into());
    let raw = parse(text.into());
    let code = tree.code().to_string();
    let m = model(&raw);
    // the whole typed walk
    let (_, errors) = dump(&tree);
    ctx.class(if errors > 0 { "with_errors" } else { "error_free" });
    // whole nodes within broken statements
    for n in m.nodes.iter().filter(|n| n.node.is_error_recovery_node() && !n.children.is_empty()) {
        for c in n.children.iter().map(|c| m.nodes[*c].node) {
            match c.type_() {
                PyNodeType::Nonterminal(N::expression) => drop(dump_expression(&tree, Expression::by_index(&tree, c.index))),
                PyNodeType::Nonterminal(N::block) => drop(dump_block(&tree, c.index)),
                _ => {}
            }
        }
    }
    walk_errors(&tree, tree.root().iter_stmt_likes(), ctx)?;
    let names: Vec<(u32, u32, u32)> = m
        .leaves
        .iter()
        .map(|l| m.nodes[*l].node)
        .filter(|n| n.type_() == PyNodeType::Terminal(T::Name))
        .map(|n| (n.start(), n.end(), n.index))
        .collect();
    let all: Vec<u32> = tree.filter_all_names(None).map(|n| n.index()).collect();
    ensure!(
        all == names.iter().map(|n| n.2).collect::<Vec<_>>(),
        "all-names",
        "filter_all_names(None) gives nodes {all:?}, the name leaves are {names:?}"
    );
    let hints_all: Vec<(u32, u32)> = m
        .nodes
        .iter()
        .filter(|n| matches!(n.node.type_(), PyNodeType::Nonterminal(N::function_def | N::assignment)))
        .map(|n| (n.node.start(), n.node.index))
        .collect();
    for pos in pick_positions(&code, s, ctx.thorough) {
        let (scope, goto) = tree.goto_node(pos);
        let _ = format!("{goto:?} {}", scope_str(&scope));
        let touching: Vec<_> = names.iter().filter(|n| n.0 <= pos && pos <= n.1).collect();
        match goto.on_name() {
            Some(n) => ensure!(
                touching.is_empty() || touching.iter().any(|t| t.2 == n.index()),
                "goto-elsewhere",
                "goto at {pos} gives the name {:?} at {}..{}",
                n.as_code(),
                n.start(),
                n.end()
            ),
            None => ensure!(
                touching.is_empty(),
                "goto-misses-name",
                "goto at {pos} is on no name ({goto:?}), although {:?} touches it",
                &code[touching[0].0 as usize..touching[0].1 as usize]
            ),
        }
        let (scope, node, rest) = tree.completion_node(pos);
        let _ = format!("{node:?} {rest:?} {}", scope_str(&scope));
        ensure!(rest.start() <= pos, "rest-start", "the rest of the completion at {pos} starts at {}", rest.start());
        let r = rest.as_code();
        ensure!(code[..pos as usize].ends_with(r), "rest-code", "the rest at {pos} is {r:?}");
        let _ = rest.is_string();
        if let CompletionNode::Global { context: Some(c) } = &node {
            let args = match c {
                CompletionContext::PrimaryCall { args, .. } => args,
                CompletionContext::PrimaryTargetCall { args, .. } => args,
            };
            if let Some(a) = args {
                let u = a.used_args_until(&rest);
                ctx.count("used_args", u.positional_args as u64);
            }
        }
        if let CompletionNode::InsideComment { comment_start, comment } = &node {
            ensure!(
                code[*comment_start as usize..].starts_with(&format!("#{comment}")) && *comment_start < pos && !comment.contains('\n'),
                "comment",
                "comment at {comment_start}: {comment:?}, cursor at {pos}"
            );
        }
        if let Some((scope, base, args)) = tree.signature_node(pos) {
            let n = args.take(100_000).count();
            ensure!(n < 100_000, "signature-args", "endless arguments at {pos}");
            let _ = format!("{base:?} {}", scope_str(&scope));
            ctx.class("signature");
        }
        let from: Vec<u32> = tree.filter_all_names(Some(pos)).map(|n| n.index()).collect();
        let need: Vec<u32> = names.iter().filter(|n| n.1 > pos).map(|n| n.2).collect();
        ensure!(
            all.ends_with(&from) && from.ends_with(&need),
            "names-from",
            "names from {pos}: {from:?}, need at least {need:?}"
        );
        let end = pos + 1 + s.n(40) as u32;
        let hints: Vec<u32> = tree
            .potential_inlay_hints(pos, end)
            .map(|h| match h {
                PotentialInlayHint::FunctionDef(f) => f.index(),
                PotentialInlayHint::Assignment(a) => a.index(),
            })
            .collect();
        let need: Vec<u32> = hints_all.iter().filter(|h| h.0 >= pos && h.0 <= end).map(|h| h.1).collect();
        let bad = need.iter().find(|n| !hints.contains(n));
        ensure!(bad.is_none(), "inlay-hints", "hints for {pos}..{end} are {hints:?} instead of at least {need:?}");
        let _ = tree.insertion_point_for_type_ignore(pos);
        let _ = tree.type_ignore_comment_for(pos, pos);
    }
    let _ = (tree.initial_imports_end_code_index(), tree.has_type_ignore_at_start());
    let _ = tree.folding_blocks().count();
    for n in &m.nodes {
        let i = n.node.index;
        if i > 0 {
            let _ = tree.node_parent_scope(i).short_debug_info();
        }
        ensure!(tree.node_start_position(i) == n.node.start() && tree.node_end_position(i) == n.node.end(), "node-position", "node {i}");
        ensure!(tree.code_of_index(i) == n.node.as_code(), "node-code", "node {i}");
        let _ = (tree.debug_info(i), tree.short_debug_of_index(i));
    }
    for n in tree.filter_all_names(None) {
        if n.is_reference() {
            let _ = format!("{:?}", n.parent());
        }
        let _ = (n.simple_parent(), n.parent_scope(), n.is_part_of_primary_ancestors(), n.maybe_left_of_primary(), n.maybe_atom_of_primary());
        let _ = (n.maybe_annotated(), n.clean_docstring(), n.is_name_of_func(), n.expect_type());
        if let Some(d) = n.name_def() {
            ensure!(n.name_def_index() == d.index() && d.name_index() == n.index(), "name-def-index", "{n:?}");
            let _ = (d.parent(), d.maybe_assignment_definition(), d.maybe_import(), d.expect_defining_stmt().index(), d.expect_type());
            let (a, b) = d.definition_range();
            ensure!(a <= n.start() && b >= n.end(), "definition-range", "{n:?} is defined in {a}..{b}");
            let _ = (d.name_can_be_overwritten(), d.maybe_name_of_func().is_some(), d.function_or_lambda_ancestor().is_some());
            let _ = (d.maybe_param_annotation().is_some(), d.maybe_parent_function_of_param().is_some());
        }
    }
    if m.nodes.len() > 15 {
        ctx.nontrivial(text);
    }
    Ok(())
}

pub fn c05(s: &mut Src, ctx: &mut Ctx) -> R {
    let (text, kind) = tame_text(s, false);
    ctx.class(kind);
    ctx.note("input", &text);
    check_queries(&text, s, ctx)
}
pub fn c05_text(text: &str, ctx: &mut Ctx) -> R {
    check_queries(text, &mut Src::from_choices(vec![]), ctx)
}

// ---------------------------------------------------------------- C10
/// what str.split() of CPython removes
fn python_space(c: char) -> bool {
    c.is_whitespace() || ('\u{1c}'..='\u{1f}').contains(&c)
}

/// The tokens of a range without layout.
fn squeeze(tree: &Tree, a: u32, b: u32, raw: &[(u32, u32)]) -> String {
    let code = tree.code();
    raw.iter().filter(|l| l.0 >= a && l.1 <= b).flat_map(|l| code[l.0 as usize..l.1 as usize].chars()).filter(|c| !python_space(*c)).collect()
}

struct Call {
    open: u32,
    close: u32,
    base: String,
    target: bool,
    comp: bool,
    commas: Vec<u32>,
    args: Vec<String>,
}

fn show_arg(a: &SignatureArg) -> String {
    match a {
        SignatureArg::PositionalOrEmptyAfterComma => "p".into(),
        SignatureArg::PositionalOrKeywordName(n) => format!("n{n}"),
        SignatureArg::Keyword(n) => format!("k{}", n.as_code()),
        SignatureArg::StarArgs => "*".into(),
        SignatureArg::StarStarKwargs => "**".into(),
    }
}

/// The call around the cursor with its arguments, and what is completed at a name, are those of CPython's AST.
pub fn check_calls(text: &str, s: &mut Src, ctx: &mut Ctx) -> R {
    let Some(o) = crate::oracle::ask("calls", text) else { return Ok(()) };
    let Some(o) = o.strip_prefix("OK\n") else {
        ctx.class("not_judged");
        return Ok(());
    };
    let tree = Tree::parse(text.into());
    let raw = parse(text.into());
    if let Some(_e) = has_error(&raw) {
        return Ok(()); // P03
    }
    let code = tree.code().to_string();
    let m = model(&raw);
    let leaves: Vec<(u32, u32)> = m
        .leaves
        .iter()
        .map(|l| m.nodes[*l].node)
        .filter(|n| !matches!(n.type_(), PyNodeType::Terminal(T::Newline | T::Indent | T::Dedent | T::Endmarker)))
        .map(|n| (n.start(), n.end()))
        .collect();
    let mut calls = vec![];
    let mut names = vec![];
    for l in o.lines() {
        let p: Vec<&str> = l.split(' ').collect();
        match p[0] {
            "C" => calls.push(Call {
                open: p[1].parse().unwrap(),
                close: p[2].parse().unwrap(),
                base: p[3].into(),
                target: p[4] == "1",
                comp: p[5] == "1",
                commas: if p[6] == "-" { vec![] } else { p[6].split(',').map(|x| x.parse().unwrap()).collect() },
                args: if p[7] == "-" { vec![] } else { p[7..].iter().map(|x| x.to_string()).collect() },
            }),
            "N" => names.push((p[1].parse::<u32>().unwrap(), p[2].parse::<u32>().unwrap(), p[3..].join(" "))),
            _ => {}
        }
    }
    for pos in pick_positions(&code, s, ctx.thorough) {
        let want = calls.iter().filter(|c| c.open <= pos && pos <= c.close).max_by_key(|c| c.open);
        let got = tree.signature_node(pos);
        let Some(w) = want else {
            ensure!(got.is_none(), "signature-without-call", "signature at {pos} of {:?}", got.map(|g| g.1.as_code().to_string()));
            continue;
        };
        let Some((_, base, args)) = got else {
            // targets such as `a.b().c = 1` have no expression as a base
            ensure!(w.target, "signature-missing", "no signature at {pos} in the call of {:?}", w.base);
            continue;
        };
        let b = squeeze(&tree, base.start(), base.end(), &leaves);
        ensure!(b == w.base, "signature-base", "signature at {pos} is of {b:?} instead of {:?}", w.base);
        let got: Vec<String> = args.take(100_000).map(|a| show_arg(&a)).collect();
        let before = w.commas.iter().filter(|c| **c <= pos).count();
        let mut want: Vec<String> = if w.comp { vec!["p".into()] } else { w.args.iter().take(before + 1).cloned().collect() };
        if !w.comp && !w.args.is_empty() && before >= w.args.len() {
            want.push("p".into());
        }
        // a name in parentheses counts as an expression
        let same = got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g == w || g == "p" && w.starts_with('n'));
        ensure!(same, "signature-args", "arguments at {pos} in the call of {:?}: {got:?} instead of {want:?}", w.base);
        ctx.count("signatures", 1);
    }
    for (a, b, want) in &names {
        let mut at: Vec<u32> = (*a..=*b).filter(|i| code.is_char_boundary(*i as usize)).collect();
        if at.len() > 4 {
            at = vec![at[0], at[1], at[at.len() / 2], at[at.len() - 1]];
        }
        for pos in at {
            let (_, node, rest) = tree.completion_node(pos);
            let dotted = |d: &DottedImportName| squeeze(&tree, d.start(), d.end(), &leaves);
            let poa = |b: &PrimaryOrAtom| match b {
                PrimaryOrAtom::Primary(p) => squeeze(&tree, p.start(), p.end(), &leaves),
                PrimaryOrAtom::Atom(p) => squeeze(&tree, p.start(), p.end(), &leaves),
            };
            let pta = |b: &PrimaryTargetOrAtom| match b {
                PrimaryTargetOrAtom::PrimaryTarget(p) => squeeze(&tree, p.start(), p.end(), &leaves),
                PrimaryTargetOrAtom::Atom(p) => squeeze(&tree, p.start(), p.end(), &leaves),
            };
            let dash = |s: String| if s.is_empty() { "-".to_string() } else { s };
            let used = |args: &Option<CallArgs>| {
                let u = args.as_ref().map(|a| a.used_args_until(&rest)).unwrap_or_default();
                let mut k: Vec<&str> = u.keyword_args.into_iter().collect();
                k.sort();
                format!("{} {}", u.positional_args, dash(k.join(",")))
            };
            let got = match &node {
                CompletionNode::Attribute { base } => format!("attr {}", poa(base)),
                CompletionNode::PrimaryTarget { base } => format!("attr {}", pta(base)),
                CompletionNode::ImportName { path } => format!(
                    "module 0 {}",
                    dash(match path {
                        None => String::new(),
                        Some((n, None)) => n.as_code().into(),
                        Some((n, Some(d))) => format!("{}.{}", n.as_code(), dotted(d)),
                    })
                ),
                CompletionNode::ImportFromFirstPart { dots, base } => format!("module {dots} {}", dash(base.as_ref().map(dotted).unwrap_or_default())),
                CompletionNode::ImportFromTarget { dots, base } => format!("from {dots} {}", dash(base.as_ref().map(dotted).unwrap_or_default())),
                CompletionNode::ParamName { func_name, .. } => format!("param {}", func_name.as_code()),
                CompletionNode::AsNewName => "as".into(),
                CompletionNode::NecessaryKeyword(k) => format!("keyword {k}"),
                CompletionNode::AfterDefKeyword => "def".into(),
                CompletionNode::AfterClassKeyword => "class".into(),
                CompletionNode::InsideString => "string".into(),
                CompletionNode::InsideComment { comment_start, comment } => {
                    ensure!(
                        (*comment_start, comment.trim_end_matches('\r')) == (*a - 1, &code[*a as usize..*b as usize]),
                        "comment-extent",
                        "the comment at {a}..{b} is seen as {comment:?} at {comment_start}"
                    );
                    "comment".into()
                }
                CompletionNode::Global { context: None } => "global".into(),
                CompletionNode::Global { context: Some(CompletionContext::PrimaryCall { base, args }) } => format!("call {} {}", poa(base), used(args)),
                CompletionNode::Global { context: Some(CompletionContext::PrimaryTargetCall { base, args }) } => format!("call {} {}", pta(base), used(args)),
            };
            ensure!(got == *want, "completion", "completion at {pos} (in {a}..{b}, {:?}): {got} instead of {want}", &code[*a as usize..*b as usize]);
            if want != "string" && want != "comment" {
                ensure!(
                    rest.start() == *a && rest.as_code() == &code[*a as usize..pos as usize],
                    "completion-rest",
                    "the text to complete at {pos} is {:?} (from {}), the name starts at {a}",
                    rest.as_code(),
                    rest.start()
                );
            }
            ctx.class(want.split(' ').next().unwrap());
            ctx.count("completions", 1);
        }
    }
    if !calls.is_empty() && names.len() > 2 {
        ctx.nontrivial(text);
    }
    Ok(())
}

pub fn c10(s: &mut Src, ctx: &mut Ctx) -> R {
    let text = crate::p_parse::program(s, ctx, 60).1;
    ctx.note("input", &text);
    check_calls(&text, s, ctx)
}
pub fn c10_text(text: &str, ctx: &mut Ctx) -> R {
    check_calls(text, &mut Src::from_choices(vec![]), ctx)
}
