use crate::model::*;
use crate::oracle::ask;
use crate::p_parse::{check_tiling, program};
use parsa_python::{NonterminalType as N, PyNode, PyNodeType, TerminalType as T, parse};
use pygen::*;
use vpcore::*;

// ---------------------------------------------------------------- P02
const WRAPS: &[(&str, &str)] = &[
    ("(", ")"),
    ("[", "]"),
    ("{", "}"),
    ("f(", ")"),
    ("f[", "]"),
    ("a.b(", ").c"),
    ("f(x=", ")"),
    ("f(*", ")"),
    ("f(**", ")"),
    ("{a: ", "}"),
    ("{**", "}"),
    ("{*", "}"),
    ("(*", ",)"),
    ("(x := ", ")"),
    ("-", ""),
    ("(not ", ")"),
    ("(lambda: ", ")"),
    ("(lambda x=", ": y)"),
    ("(a if ", " else b)"),
    ("(a if b else ", ")"),
    ("(yield ", ")"),
    ("(await ", ")"),
    ("[x for x in ", "]"),
    ("[", " for x in y]"),
    ("{", ": 1 for x in y}"),
    ("(", " for x in y if z)"),
    ("f(", " for x in y)"),
    ("a[", ":b]"),
    ("a[b:", ":c, d]"),
    ("(a, ", ")"),
    ("(", ", a)"),
    ("a + ", ""),
    ("a and ", ""),
    ("(a < ", " < b)"),
    ("a ** ", ""),
    ("f\"{ ", " }\""),
    ("f'{a:{ ", " }}'"),
];
const FRAMES: &[(&str, &str)] = &[
    ("", ""),
    ("x = ", ""),
    ("x: ", ""),
    ("x: int = ", ""),
    ("x += ", ""),
    ("if ", ": pass"),
    ("while ", ": pass"),
    ("for x in ", ": pass"),
    ("with ", ": pass"),
    ("with ", " as x: pass"),
    ("with (", " as x): pass"),
    ("return ", ""),
    ("assert ", ""),
    ("raise ", ""),
    ("@", "\ndef f(): pass"),
    ("def f(x=", "): pass"),
    ("def f(x: ", "): pass"),
    ("def f() -> ", ": pass"),
    ("class A(", "): pass"),
    ("try: pass\nexcept ", ": pass"),
    ("match ", ":\n case 1: pass"),
    ("match x:\n case 1 if ", ": pass"),
    ("type X = ", ""),
    ("a[", "] = 1"),
    ("f(", ").a = 1"),
    ("del a[", "]"),
    ("print ", ""),
];
const PATS: &[(&str, &str)] =
    &[("(", ")"), ("[", "]"), ("(", ", b)"), ("[a, ", ", *_]"), ("A(", ")"), ("A(b=", ")"), ("{1: ", "}"), ("(1 | ", ")"), ("(", " as x)")];
const TARGETS: &[(&str, &str)] = &[("(", ")"), ("[", "]"), ("(a, ", ")"), ("[", ", *b]"), ("(", ",)")];
/// Repeated pieces for long inputs.
const REPEAT: &[&str] = &[
    "x = 1\n",
    "\n",
    "# c\n",
    "a + ",
    "a and ",
    "not ",
    "a < ",
    "a if b else ",
    "a ** ",
    "lambda: ",
    "- ",
    "'s' ",
    "f'{a}' ",
    "a = ",
    "a, ",
    "*a, ",
    "x.y",
    "[0]",
    "()",
    "; ",
    " \\\n",
    "if x: pass\n",
    "elif x: pass\n",
    "@a\n",
    "def f(): pass\n",
    "class A: pass\n",
    "try: x\nexcept: y\n",
    "import a\n",
    ".",
    "\"\"\"doc\"\"\"\n",
    "'",
    "\"",
    "}",
    ")",
    "]",
    "for x in y: z\n",
    "else: 1\n",
    "  \n",
    "   x\n",
    "$",
    "\u{feff}",
    "é",
    "0",
    "1_",
    "await ",
    "case x: pass\n",
    "match x: pass\n",
    ":",
    ":=",
    "->",
    "async ",
    "return\n",
    "\x0c",
    "\\",
    "f'",
    "{{",
];

fn small_stack<X: Send + 'static>(f: impl FnOnce() -> X + Send + 'static) -> Result<X, Fail> {
    std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(f)
        .unwrap()
        .join()
        .map_err(|_| Fail::new("panic", format!("the parser panicked: {}", take_panic())))
}

pub fn p02(s: &mut Src, ctx: &mut Ctx) -> R {
    let (text, valid) = match s.weighted(&[4, 1, 3, 4]) {
        0 => {
            let depth = 1 + s.n(30);
            let mut t = "a".to_string();
            let few: Vec<usize> = (0..1 + s.n(3)).map(|_| s.n(WRAPS.len())).collect();
            let mixed = s.coin();
            let mut doubling = 0;
            for _ in 0..depth {
                let (a, b) = WRAPS[if mixed { s.n(WRAPS.len()) } else { *s.pick(&few) }];
                if b == ":b]" || a == "f(" && b != ")" {
                    // each of them doubles the time (listed finding)
                    doubling += 1;
                    if doubling > 4 {
                        continue;
                    }
                }
                t = format!("{a}{t}{b}");
            }
            let (a, b) = *s.pick(FRAMES);
            ctx.class("nested_expression");
            (format!("{a}{t}{b}\n"), true)
        }
        1 => {
            let pat = s.coin();
            let depth = 1 + s.n(if pat { 12 } else { 20 });
            let mut t = "a".to_string();
            for _ in 0..depth {
                let (a, b) = *s.pick(if pat { PATS } else { TARGETS });
                t = format!("{a}{t}{b}");
            }
            ctx.class("nested_pattern_or_target");
            let t = if pat {
                format!("match x:\n case {t}: pass\n")
            } else {
                match s.n(3) {
                    0 => format!("{t} = x\n"),
                    1 => format!("for {t} in x: pass\n"),
                    _ => format!("with x as {t}: pass\n"),
                }
            };
            (t, true)
        }
        2 => {
            let n = 1 + s.n(400);
            let k = 1 + s.n(3);
            let piece: String = (0..k).map(|_| *s.pick(REPEAT)).collect();
            let mut t = String::new();
            if s.chance(1, 6) {
                // nested blocks
                for i in 0..n % 60 {
                    t.push_str(&" ".repeat(i));
                    t.push_str(*s.pick(&["if x:\n", "def f():\n", "class A:\n", "while 1:\n", "try:\n", "with a:\n", "for a in b:\n"]));
                }
                t.push_str(&" ".repeat(n % 60));
                t.push_str("pass\n");
            }
            t.push_str(*s.pick(&["", "x = ", "(", "if ", "f(a", "'''", "x: "]));
            for _ in 0..n {
                t.push_str(&piece);
            }
            t.push_str(*s.pick(&["a", "", ")", "\n", "]"]));
            ctx.class("long");
            if explosive(&t) {
                return Ok(());
            }
            (t, false)
        }
        _ => {
            let (t, k) = tame_text(s, true);
            ctx.class(k);
            (t, k == "valid")
        }
    };
    ctx.note("input", &text);
    check_total(&text, valid, ctx)
}

pub fn p02_text(text: &str, ctx: &mut Ctx) -> R {
    check_total(text, false, ctx)
}

fn check_total(text: &str, valid: bool, ctx: &mut Ctx) -> R {
    let t = text.to_string();
    let (nodes, leaves, err) = small_stack(move || {
        let tree = parse(t.into());
        let m = model(&tree);
        (tree.length(), m.leaves.len(), has_error(&tree))
    })?;
    ensure!(nodes >= leaves && leaves >= 1, "empty", "{nodes} nodes, {leaves} leaves");
    if nodes > 20 {
        ctx.nontrivial(text);
    }
    if valid
        && let Some(e) = err
        && ask("syntax", text).as_deref() == Some("OK")
    {
        fail!("rejects-valid", "valid for CPython, but: {e}");
    }
    Ok(())
}

// ---------------------------------------------------------------- P06
/// Broken lines: brackets and quotes are balanced, nothing opens a block.
const BROKEN: &[&str] = &[
    "x = ", "x y", "1 2", "a +", "= 3", "x.", "x..y", "def", "class", "import", "from x", "return return", "if x", "while", "for x",
    "x = = 1", "(1 2)", "[a b]", "{a b}", "f(a b)", "x[a b]", "del", "lambda x", "not", "a and", "with", "raise a from", "assert",
    "a if b", "global", "nonlocal 1", "a.b c", "$", "?", "x = $", "`a`", "a ! b", "a := 3", "yield from", "del 1 2", "import a.", "@", "pass pass",
    "f(x for)", "{a: }", "[for x in y]", "a <> b", "a ->", "0b2", "1__0", "else", "except", "finally", "elif x", "in x", "as y", "is",
    "async", "await", "x: = 3", "from . import", "import *", "class A(", "1 = = 2", "a, b c, d", "*", "**a", "...a", "f'{a b}'", "f'{a!}'", "f'{}'", "x = yield yield",
];

/// Complete statements of one or more lines without anything broken.
fn stmt_text(s: &mut Src) -> String {
    let f = 3 + s.n(20) as i64;
    let mut g = Gen::new(s, f);
    g.allow_same_quotes = true;
    g.file(1, 1);
    let toks = g.out;
    render(&toks, Layout::canonical(), s).text
}

fn subtree(n: PyNode<'_>, base: u32, out: &mut String) {
    // iterative: trees may be deep
    let mut stack = vec![(n, 0usize)];
    while let Some((n, d)) = stack.pop() {
        out.push_str(&format!("{d} {} {}-{}\n", n.type_str(), n.start() - base, n.end() - base));
        let c: Vec<_> = n.iter_children().collect();
        for c in c.into_iter().rev() {
            stack.push((c, d + 1));
        }
    }
}

fn top_level(tree: &parsa_python::PyTree) -> Vec<(usize, usize, String)> {
    tree.root_node()
        .iter_children()
        .map(|c| {
            let mut o = String::new();
            subtree(c, c.start(), &mut o);
            (c.start() as usize, c.end() as usize, o)
        })
        .collect()
}

pub fn p06(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = 1 + s.n(4);
    let mut parts: Vec<String> = (0..n).map(|_| stmt_text(s)).collect();
    // what each statement is on its own
    let broken = {
        let mut b = s.pick(BROKEN).to_string();
        if s.chance(1, 3) {
            // a broken variant of a generated simple line
            let f = 3 + s.n(12) as i64;
            let mut g = Gen::new(s, f);
            g.allow_same_quotes = true;
            g.file(1, 1);
            let mut t = g.out;
            if t.iter().all(|t| !matches!(t.k, K::Ind | K::Ded)) && t.iter().filter(|t| t.k == K::Nl).count() <= 1 {
                t.retain(|t| t.k != K::Nl);
                mutate_tokens(&mut t, s);
                let x = render(&t, Layout::canonical(), s).text;
                if contained(&x) {
                    b = x.trim_end().to_string();
                    ctx.class("mutant_line");
                }
            }
        }
        b
    };
    if !contained(&broken) {
        return Ok(());
    }
    let at = s.n(n + 1);
    parts.insert(at, format!("{broken}\n"));
    let nl = "\n";
    let text: String = parts.join("");
    let _ = nl;
    ctx.note("input", &text);
    ctx.note("broken", &broken);
    if at > 0 && (joins_previous(&broken) || parts[at - 1].starts_with('@') && !parts[at - 1].contains("def ") && !parts[at - 1].contains("class ")) {
        return Ok(());
    }
    if at < n && joins_previous(&parts[at + 1]) {
        return Ok(());
    }
    if broken.contains('@') {
        // a decorator belongs to what follows (also a decorator that the recovery starts with, in "a = @b")
        return Ok(());
    }
    if broken.trim_start().starts_with("match") || broken.trim_start().starts_with("case") {
        return Ok(());
    }
    let tree = parse(text.clone().into());
    let top = top_level(&tree);
    let mut pos = 0;
    for (i, p) in parts.iter().enumerate() {
        let (a, b) = (pos, pos + p.len());
        pos = b;
        if i == at {
            continue;
        }
        let alone = parse(p.clone().into());
        if has_error(&alone).is_some() {
            return Ok(());
        }
        let want: Vec<_> = top_level(&alone).into_iter().filter(|x| x.1 > x.0).map(|x| (x.0 + a, x.1 + a, x.2)).collect();
        for w in want {
            ensure!(
                top.contains(&w),
                "containment",
                "the statement at {}..{} ({:?}) is parsed differently because of the broken line {broken:?} at {}",
                w.0,
                w.1,
                &text[w.0..w.1],
                b
            );
        }
    }
    ctx.nontrivial(&text);
    Ok(())
}

/// Continuations of a compound statement.
fn joins_previous(t: &str) -> bool {
    let t = t.trim_start();
    let w: String = t.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
    ["else", "elif", "except", "finally", "case"].contains(&&*w)
}

/// Balanced brackets, no quotes which are left open, no block opener, one line.
fn contained(b: &str) -> bool {
    let b = b.trim_end();
    if b.is_empty() || b.contains(['\n', '\r', '\\', '#', ':', '\'', '"', '\x0c']) && !BROKEN.contains(&b) || b.starts_with([' ', '\t']) {
        return false;
    }
    let mut st = vec![];
    for c in b.chars() {
        match c {
            '(' | '[' | '{' => st.push(c),
            ')' => {
                if st.pop() != Some('(') {
                    return false;
                }
            }
            ']' => {
                if st.pop() != Some('[') {
                    return false;
                }
            }
            '}' => {
                if st.pop() != Some('{') {
                    return false;
                }
            }
            _ => {}
        }
    }
    st.is_empty() && !explosive(b)
}

// ---------------------------------------------------------------- P07
pub fn check_tokens(text: &str, ctx: &mut Ctx) -> R {
    let Some(o) = ask("tok", text) else { return Ok(()) };
    let Some(want) = o.strip_prefix("OK ") else {
        ctx.class("reference_rejects");
        return Ok(());
    };
    let tree = parse(text.into());
    // (kind, start, end); layout tokens only by kind
    let mut w = vec![];
    for l in want.lines() {
        let mut it = l.split(' ');
        let k = it.next().unwrap();
        let a: usize = it.next().unwrap().parse().unwrap();
        let b: usize = it.next().unwrap().parse().unwrap();
        match k {
            "FSTRING_MIDDLE" => {}
            "NEWLINE" | "INDENT" | "DEDENT" => w.push((k.to_string(), 0, 0)),
            "ENDMARKER" => w.push((k.to_string(), 0, 0)),
            "NAME" | "OP" => w.push(("word".to_string(), a, b)),
            "NUMBER" | "FSTRING_START" | "FSTRING_END" => w.push((k.to_string(), a, b)),
            "STRING" => w.push((k.to_string(), a, b)),
            _ => fail!("oracle", "token {l}"),
        }
    }
    let mut g = vec![];
    for n in tree.nodes().filter(|n| n.is_leaf()) {
        let (a, b) = (n.start() as usize, n.end() as usize);
        match n.type_() {
            PyNodeType::Terminal(t) | PyNodeType::ErrorTerminal(t) => match t {
                T::Newline => g.push(("NEWLINE".to_string(), 0, 0)),
                T::Indent => g.push(("INDENT".to_string(), 0, 0)),
                T::Dedent => g.push(("DEDENT".to_string(), 0, 0)),
                T::Endmarker => g.push(("ENDMARKER".to_string(), 0, 0)),
                T::Name => g.push(("word".to_string(), a, b)),
                T::Number => g.push(("NUMBER".to_string(), a, b)),
                T::String | T::Bytes => g.push(("STRING".to_string(), a, b)),
                T::FStringStart => g.push(("FSTRING_START".to_string(), a, b)),
                T::FStringEnd => g.push(("FSTRING_END".to_string(), a, b)),
                T::FStringString => {}
                _ => g.push((format!("{t:?}"), a, b)),
            },
            PyNodeType::Keyword | PyNodeType::ErrorKeyword => g.push(("word".to_string(), a, b)),
            t => fail!("kind", "leaf {t:?}"),
        }
    }
    for (i, x) in w.iter().enumerate() {
        let y = g.get(i);
        ensure!(y == Some(x), "tokens", "token {i}: CPython has {x:?} {:?}, the tree {y:?} {:?}", &text.get(x.1..x.2), y.and_then(|y| text.get(y.1..y.2)));
    }
    ensure!(g.len() == w.len(), "tokens", "{} tokens more", g.len() - w.len());
    ctx.nontrivial(text);
    Ok(())
}

pub fn p07(s: &mut Src, ctx: &mut Ctx) -> R {
    let (_, text) = program(s, ctx, 60);
    ctx.note("input", &text);
    check_tokens(&text, ctx)
}

// ---------------------------------------------------------------- P08
/// Types and contents, without positions and layout.
fn shape(text: &str) -> (String, bool) {
    let tree = parse(text.into());
    let m = model(&tree);
    let mut o = String::new();
    let mut err = false;
    for n in &m.nodes {
        let ty = n.node.type_str();
        err |= n.node.is_error_recovery_node();
        if ty == "Newline" {
            // blank lines before the first statement are statements of their own
            o.push_str(&format!("{} Newline\n", n.depth));
        } else if n.node.is_leaf() && ty != "Indent" && ty != "Dedent" && ty != "Endmarker" {
            let c = n.node.as_code().replace("\r\n", "\n").replace('\r', "\n");
            if c == "..." && n.parent.is_some_and(|p| m.nodes[p].node.type_str() == "import_from") {
                // dots of a relative import may be written together
                o.push_str(&format!("{} {ty} \".\"\n", n.depth).repeat(3));
            } else {
                o.push_str(&format!("{} {ty} {c:?}\n", n.depth));
            }
        } else {
            o.push_str(&format!("{} {ty}\n", n.depth));
        }
    }
    (o, err)
}

pub fn p08(s: &mut Src, ctx: &mut Ctx) -> R {
    let f = 5 + s.n(60) as i64;
    let mut g = Gen::new(s, f);
    g.allow_same_quotes = true;
    g.file(5, 14);
    let toks = g.out;
    let l = Layout::random(s);
    let (a, mut b) = (render(&toks, Layout::canonical(), s).text, render(&toks, l, s).text);
    if s.chance(1, 20) {
        b.insert(0, '\u{feff}');
    }
    ctx.note("canonical", &a);
    ctx.note("laid out", &b);
    if ask("syntax", &a).as_deref() != Some("OK") || ask("syntax", &b).as_deref() != Some("OK") {
        ctx.class("reference_rejects");
        return Ok(());
    }
    let (sa, _) = shape(&a);
    let (sb, _) = shape(&b);
    ensure!(sa == sb, "layout", "the tree depends on the layout: {}", first_diff(&sa, &sb));
    if a != b {
        ctx.nontrivial(&b);
    }
    Ok(())
}

// ---------------------------------------------------------------- P09
pub fn p09(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = 2 + s.n(4);
    let texts: Vec<String> = (0..n).map(|_| tame_text(s, false).0).collect();
    for (i, t) in texts.iter().enumerate() {
        ctx.note(&format!("text {i}"), t);
    }
    let alone: Vec<String> = texts.iter().map(|t| dump_tree(&parse(t.clone().into()))).collect();
    // again, in another order, in this thread
    for i in (0..n).rev() {
        ensure!(dump_tree(&parse(texts[i].clone().into())) == alone[i], "repeat", "text {i} is parsed differently the second time");
    }
    // at the same time, in several threads
    let starts = std::sync::Barrier::new(4);
    let results: Vec<Result<(), String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..4)
            .map(|k| {
                let (texts, alone, starts) = (&texts, &alone, &starts);
                sc.spawn(move || {
                    starts.wait();
                    for j in 0..texts.len() {
                        let i = (j + k) % texts.len();
                        let tree = parse(texts[i].clone().into());
                        if dump_tree(&tree) != alone[i] || dump_tree(&tree.clone()) != alone[i] {
                            return Err(format!("text {i} is parsed differently in a thread"));
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
    });
    for r in results {
        if let Err(e) = r {
            fail!("threads", "{e}");
        }
    }
    ctx.nontrivial(&texts.join("\n-----\n"));
    Ok(())
}

// ---------------------------------------------------------------- P11
static SEARCHES: &[&[PyNodeType]] = &[
    &[PyNodeType::Terminal(T::Name)],
    &[PyNodeType::Nonterminal(N::name_def)],
    &[PyNodeType::Nonterminal(N::atom), PyNodeType::Nonterminal(N::primary)],
    &[PyNodeType::Nonterminal(N::stmt)],
    &[PyNodeType::Nonterminal(N::expression), PyNodeType::Terminal(T::Newline)],
    &[PyNodeType::Nonterminal(N::t_primary), PyNodeType::Nonterminal(N::block), PyNodeType::Terminal(T::Number)],
    &[PyNodeType::Terminal(T::String), PyNodeType::ErrorTerminal(T::Name), PyNodeType::ErrorNonterminal(N::stmt)],
];

pub fn check_navigation(text: &str, s: &mut Src, ctx: &mut Ctx) -> R {
    let tree = parse(text.into());
    let m = model(&tree);
    // the model numbers nodes in preorder, which is the index of a node
    for (i, n) in m.nodes.iter().enumerate() {
        let x = n.node;
        ensure!(x.index as usize == i, "index", "node {i} has index {}", x.index);
        let by = tree.node_by_index(i as u32);
        ensure!(by.start() == x.start() && by.end() == x.end() && by.type_str() == x.type_str(), "by-index", "node_by_index({i})");
        let p = x.parent().map(|p| p.index as usize);
        ensure!(p == n.parent, "parent", "parent of {i} ({}) is {p:?} instead of {:?}", x.type_str(), n.parent);
        let (mut prev, mut next) = (None, None);
        if let Some(p) = n.parent {
            let cs = &m.nodes[p].children;
            let k = cs.iter().position(|c| *c == i).unwrap();
            prev = k.checked_sub(1).map(|k| cs[k]);
            next = cs.get(k + 1).copied();
        }
        let g = x.next_sibling().map(|n| n.index as usize);
        ensure!(g == next, "next-sibling", "next sibling of {i} is {g:?} instead of {next:?}");
        let g = x.previous_sibling().map(|n| n.index as usize);
        ensure!(g == prev, "previous-sibling", "previous sibling of {i} ({}) is {g:?} instead of {prev:?}", x.type_str());
        ensure!(x.is_leaf() == n.children.is_empty(), "leaf", "is_leaf of {i}");
        for (k, c) in n.children.iter().enumerate() {
            ensure!(x.nth_child(k).index as usize == *c, "nth-child", "child {k} of {i}");
        }
        let mut l = i;
        while let Some(c) = m.nodes[l].children.last() {
            l = *c;
        }
        let g = x.last_leaf_in_subtree().index as usize;
        ensure!(g == l, "last-leaf", "last leaf in {i} is {g} instead of {l}");
        let lp = m.leaves.partition_point(|l| *l < i);
        let prev = lp.checked_sub(1).map(|k| m.leaves[k]);
        let g = x.previous_leaf().map(|n| n.index as usize);
        ensure!(g == prev, "previous-leaf", "previous leaf of {i} is {g:?} instead of {prev:?}");
        let ln = m.leaves.partition_point(|l| *l <= i);
        let next = m.leaves.get(ln).copied();
        let g = x.next_leaf().map(|n| n.index as usize);
        ensure!(g == next, "next-leaf", "next leaf of {i} is {g:?} instead of {next:?}");
        if x.length() > 0 {
            let after = m.leaves.iter().find(|k| **k > l).map(|k| m.nodes[*k].node.start());
            let want = after.map_or("", |a| &tree.as_code()[x.end() as usize..a as usize]);
            ensure!(x.suffix() == want, "suffix", "suffix of {i} is {:?} instead of {want:?}", x.suffix());
        }
        // Debug output must work for every node
        let d = format!("{x:?}");
        ensure!(d.contains("node_index"), "debug", "{d}");
    }
    // leaves under the cursor
    let code = tree.as_code();
    let leaves: Vec<(u32, u32, usize)> = m.leaves.iter().map(|l| (m.nodes[*l].node.start(), m.nodes[*l].node.end(), *l)).collect();
    for pos in 0..=code.len() as u32 + 2 {
        let k = leaves.partition_point(|l| l.0 <= pos);
        let want = if k == 0 {
            leaves[0].2
        } else if leaves[k - 1].1 < pos && k < leaves.len() {
            leaves[k].2
        } else {
            leaves[k - 1].2
        };
        let g = tree.leaf_by_position(pos).index as usize;
        ensure!(g == want, "leaf-by-position", "leaf at {pos} is {g} instead of {want}");
    }
    // searches
    for _ in 0..3 {
        let types = *s.pick(SEARCHES);
        let inner: Vec<usize> = (0..m.nodes.len()).filter(|i| !m.nodes[*i].children.is_empty()).collect();
        let at = *s.pick(&inner);
        let end = m.nodes[at].node.end();
        let last = m.nodes[at].node.last_leaf_in_subtree().index as usize;
        for avoid in [false, true] {
            let mut want = vec![];
            let mut i = at;
            while i <= last {
                let n = &m.nodes[i];
                if types.contains(&n.node.type_()) && n.node.start() < end {
                    want.push(i);
                    if avoid {
                        i = n.node.last_leaf_in_subtree().index as usize + 1;
                        continue;
                    }
                }
                i += 1;
            }
            let got: Vec<usize> = m.nodes[at].node.search(types, avoid).take(m.nodes.len() + 1).map(|n| n.index as usize).collect();
            ensure!(got == want, "search", "search in {at} for {types:?} (avoid_found_subtrees={avoid}): {got:?} instead of {want:?}");
        }
    }
    if m.nodes.len() > 15 {
        ctx.nontrivial(text);
    }
    Ok(())
}

pub fn p11(s: &mut Src, ctx: &mut Ctx) -> R {
    let (text, kind) = tame_text(s, false);
    ctx.class(kind);
    ctx.note("input", &text);
    check_navigation(&text, s, ctx)
}

#[allow(dead_code)]
pub fn tiling(text: &str, ctx: &mut Ctx) -> R {
    check_tiling(text, ctx)
}
