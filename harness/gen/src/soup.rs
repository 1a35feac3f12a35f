use crate::{Gen, K, Layout, Tk, render, tk};
use vpcore::Src;

pub const FRAGS: &[&str] = &[
    "if", "else", "elif", "while", "for", "in", "not", "is", "and", "or", "lambda", "def", "class", "return", "yield", "from",
    "import", "as", "with", "try", "except", "finally", "raise", "pass", "break", "continue", "global", "nonlocal", "del",
    "assert", "async", "await", "match", "case", "type", "_", "None", "True", "False", "x", "foo", "é", "变", "1", "0x", "1.",
    "1e", "0b12", "1_", ".5", "1j", "'a'", "\"b\"", "'''c'''", "'", "\"", "'''", "\"\"\"", "f'", "f\"", "f'{", "f'''{x", "rb'",
    "b'x'", "u'", "br\"\"\"", "(", ")", "[", "]", "{", "}", ",", ":", ";", ".", "...", "=", "==", ":=", "->", "+", "-", "*",
    "**", "/", "//", "%", "@", "<<", ">>", "&", "|", "^", "~", "<", ">", "<=", ">=", "!=", "!", "$", "?", "`", "\\", "\n",
    "\r\n", "\r", "\n    ", "\n  ", "\n\t", "\n        ", "    ", "\t", " ", "\x0c", "# c", "#\n", "\\\n", "\\N{DASH}", "\\x",
    "\u{feff}", "\u{a0}", "\u{3000}", "\u{2028}", "\u{85}", "😀", "\0", "\u{301}", "{{", "}}", "!r", ":>10", "+=", "<<=", "@foo\n",
    "print", "self.", "x[", "x(", "def f(", "def f():\n", "class C:\n", "if x:\n", "try:\n", "match x:\n", "case 1:\n", "t'{x}'",
    "ℂ", "ª", "\u{200d}", "\u{130}", "𝔘",
];

pub const CHARS: &[char] = &[
    'a', 'f', '\'', '"', '\\', '\n', '\r', '\t', ' ', '#', '{', '}', '(', ')', '[', ']', ':', ',', '.', '=', '!', '0', 'x', 'é',
    '😀', '\u{feff}', '\u{a0}', '\0', '$', '?', '-', '*', '\x0c', 'N', '_', '日', ';', '@', '\u{2028}', '`', '~', '<', 'b', 'r',
];

/// Returns (text, kind)
pub fn any_text(s: &mut Src, big: bool) -> (String, &'static str) {
    let k = s.weighted(&[3, 4, 4, 3, 2, 4]);
    match k {
        0 => {
            let t = gen_program(s, if big { 120 } else { 40 });
            (render_random(&t, s), "valid")
        }
        1 => {
            let mut t = gen_program(s, if big { 100 } else { 40 });
            let n = 1 + s.len(1, 3);
            for _ in 0..n {
                mutate_tokens(&mut t, s);
            }
            (render_random(&t, s), "token_mutant")
        }
        2 => {
            let t = gen_program(s, if big { 100 } else { 40 });
            let mut x = render_random(&t, s);
            let n = 1 + s.len(1, 4);
            for _ in 0..n {
                mutate_chars(&mut x, s);
            }
            (x, "char_mutant")
        }
        3 => {
            let n = s.len(if big { 40 } else { 15 }, 200);
            let mut x = String::new();
            for _ in 0..n {
                x.push_str(*s.pick(FRAGS));
                if s.coin() {
                    x.push(' ');
                }
            }
            (x, "fragment_soup")
        }
        5 => (statement_soup(s, if big { 10 } else { 4 }), "statement_soup"),
        _ => {
            let n = s.len(20, 200);
            let mut x = String::new();
            for _ in 0..n {
                x.push(*s.pick(CHARS));
            }
            (x, "char_soup")
        }
    }
}

/// Unfinished statements of one kind: first word(s) and what may follow, in any order.
const THEMES: &[(&[&str], &[&str])] = &[
    (&["from", "import", "from . import", "from a import", "from .b.c import", "import a", "from"], &[
        ".", "...", "a", "b", "as", ",", "(", ")", "*", "import", "from", "a.b", " ", ";", "class",
    ]),
    (&["def f(", "def", "async def f(", "class A(", "class A[T](", "def f[T", "lambda", "x = lambda a,", "@d\ndef f("], &[
        "a", "b", "=", ":", ",", "*", "**", "/", ")", "(", "->", "int", "[", "]", "1", "pass", "*a", "**k", "a: int", "b=1", "T", "...",
    ]),
    (&["f(", "a.b(", "x = f(", "a[0](", "f(1, ", "await f(", "f()(", "@d("], &[
        "a", "b=", "=", ",", "*a", "**k", ")", "(", ".", "x.", "1", "for x in y", "[", "]", "'s'", "lambda", "\n", "if", ":=",
    ]),
    (&["a", "a, b", "(a", "[a", "a.b", "a[0]", "a().b", "*a", "del a", "for a", "with a as", "a:", "(a)"], &[
        "=", ",", ".", "b", "[", "]", "(", ")", "*", "*b", ":", "int", "+=", "in", "as", ".b", "1", "as b", "yield", ":=", "=",
    ]),
    (&["match x:\n    case", "case", "match", "match x:\n  case 1: pass\n  case"], &[
        "a", "A(", ")", "[", "]", "{", "}", "1", ":", "|", "as", "*", "**", "-", "+", "2j", "'k'", ".", "b=", "if", "_", ",", "None", "pass",
    ]),
    (&["x = [", "x = {", "x = (", "[x", "{x: y", "f'{", "f'{x", "f'{x:", "f'''{"], &[
        "a", "b", ":", ",", "for", "in", "if", "async for a in b", "]", "}", ")", "**", "*", "!r", "=", "'", "'''", "lambda", "not", ":>", "{",
    ]),
    (
        &[
            "if", "while", "try:", "try: x\nexcept", "with", "with (", "async with", "async for", "for", "else", "elif", "finally", "return",
            "raise", "assert", "global", "nonlocal", "type X", "yield", "del",
        ],
        &[
            "a", ":", ",", "as", "b", "in", "from", "not", "(", ")", "x", "pass", "\n    pass", "\n    ", "\n", "else:", "except:", "=", "[", "]",
            "T", ".", "await",
        ],
    ),
];

pub fn statement_soup(s: &mut Src, lines: usize) -> String {
    let mut x = String::new();
    let n = 1 + s.n(lines);
    let mut indent = 0usize;
    for _ in 0..n {
        if s.chance(1, 4) {
            x.push_str(&"    ".repeat(indent));
            x.push_str(*s.pick(&["def g():\n", "class C:\n", "if x:\n", "try:\n", "for i in j:\n", "async def h(a, b):\n"]));
            indent += 1;
        } else if indent > 0 && s.chance(1, 4) {
            indent -= 1;
        }
        x.push_str(&"    ".repeat(indent));
        let (starts, follow) = *s.pick(THEMES);
        x.push_str(*s.pick(starts));
        let k = s.len(4, 14);
        for _ in 0..k {
            if s.chance(2, 3) {
                x.push(' ');
            }
            x.push_str(*s.pick(follow));
        }
        if s.chance(1, 6) {
            x.push_str("  # type: ignore");
        }
        if s.chance(9, 10) {
            x.push_str(*s.pick(&["\n", "\n", "\n", "\r\n", "\n\n"]));
        }
    }
    x
}

pub fn gen_program(s: &mut Src, max_fuel: usize) -> Vec<Tk> {
    let fuel = 5 + s.n(max_fuel) as i64;
    let mut g = Gen::new(s, fuel);
    g.allow_same_quotes = g.s.chance(1, 4);
    g.file(4, 12);
    g.out
}

pub fn render_random(t: &[Tk], s: &mut Src) -> String {
    let l = Layout::random(s);
    render(t, l, s).text
}

pub fn mutate_tokens(t: &mut Vec<Tk>, s: &mut Src) {
    if t.is_empty() {
        t.push(tk(K::Op, *s.pick(FRAGS)));
        return;
    }
    let i = s.n(t.len());
    match s.n(7) {
        0 => {
            t.remove(i);
        }
        1 => {
            let x = t[i].clone();
            t.insert(i, x);
        }
        2 => {
            let j = s.n(t.len());
            t.swap(i, j);
        }
        3 => t.insert(i, tk(K::Op, *s.pick(FRAGS))),
        4 => t[i] = tk(K::Op, *s.pick(FRAGS)),
        5 => t.truncate(i),
        _ => {
            let n = 1 + s.n(4.min(t.len() - i));
            t.drain(i..i + n.min(t.len() - i));
        }
    }
}

pub fn mutate_chars(x: &mut String, s: &mut Src) {
    let cs: Vec<char> = x.chars().collect();
    if cs.is_empty() {
        x.push(*s.pick(CHARS));
        return;
    }
    let i = s.n(cs.len());
    let mut r: Vec<char> = cs.clone();
    match s.n(6) {
        0 => {
            r.remove(i);
        }
        1 => r.insert(i, *s.pick(CHARS)),
        2 => r[i] = *s.pick(CHARS),
        3 => r.truncate(i),
        4 => {
            let n = 1 + s.n(12);
            let e = (i + n).min(r.len());
            r.drain(i..e);
        }
        _ => {
            let n = 1 + s.n(20);
            let e = (i + n).min(r.len());
            let part: Vec<char> = r[i..e].to_vec();
            let j = s.n(r.len());
            for (k, c) in part.into_iter().enumerate() {
                r.insert(j + k, c);
            }
        }
    }
    *x = r.into_iter().collect();
}

/// Broken code inside of deeply nested calls makes the parser's error recovery exponential (a listed
/// finding of P02), so other checks on broken text stay below that depth.
pub fn explosive(x: &str) -> bool {
    let mut stack: Vec<bool> = vec![];
    let mut commas: Vec<usize> = vec![];
    let mut prev = ' ';
    let mut calls = 0usize;
    for c in x.chars() {
        match c {
            '(' | '[' | '{' => {
                let call = prev == '_' || prev == ')' || prev == ']' || prev == '}' || prev == '\'' || prev == '"' || prev.is_alphanumeric();
                calls += call as usize;
                stack.push(call);
                commas.push(0);
            }
            ',' => {
                // an incomplete argument after many others
                if let Some(n) = commas.last_mut() {
                    *n += 1;
                    if *n > 10 && stack.last() == Some(&true) {
                        return true;
                    }
                }
            }
            ')' | ']' | '}' => {
                if let Some(true) = stack.pop() {
                    calls -= 1;
                }
                commas.pop();
            }
            _ => {}
        }
        if calls > 5 || stack.len() > 10 {
            return true;
        }
        if !c.is_whitespace() && c != '\\' {
            prev = c;
        }
    }
    false
}

/// Like any_text, without broken text that is exponentially slow.
pub fn tame_text(s: &mut Src, big: bool) -> (String, &'static str) {
    let (t, k) = any_text(s, big);
    if k != "valid" && explosive(&t) {
        // keep a prefix that is shallow enough
        let mut end = t.len();
        while end > 0 && explosive(&t[..end]) {
            end /= 2;
            while !t.is_char_boundary(end) {
                end -= 1;
            }
        }
        return (t[..end].to_string(), k);
    }
    (t, k)
}
