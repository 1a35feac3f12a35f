//! Values of literals, docstrings.
use crate::oracle::ask;
use parsa_python_cst::*;
use vpcore::*;

const PLAIN: &[&str] = &[
    "a", "b", "xyz", " ", "é", "😀", "日", "{", "}", "{}", "0", "7", "8", "ff", "N", "#", "\t", "%s", "A", "\u{a0}", "\u{301}", "u", "_", "-", "\u{2028}",
];

/// One literal; `valid` is false if it contains an escape that CPython rejects.
fn literal(s: &mut Src, bytes: bool, broken: bool) -> String {
    let prefix = if bytes {
        *s.pick(&["b", "B", "rb", "bR", "Br", "RB", "br", "b"])
    } else {
        *s.pick(&["", "", "", "", "r", "R", "u", "U"])
    };
    let raw = prefix.contains(['r', 'R']);
    let q = *s.pick(&["'", "\"", "'''", "\"\"\""]);
    let triple = q.len() == 3;
    let mut o = String::new();
    let n = s.len(4, 12);
    for _ in 0..n {
        match s.weighted(&[6, 5, 2, 2, 2, 1, 1, 1]) {
            0 => {
                let p = *s.pick(PLAIN);
                if !bytes || p.is_ascii() {
                    o.push_str(p);
                }
            }
            1 => o.push_str(*s.pick(&["\\n", "\\t", "\\\\", "\\'", "\\\"", "\\a", "\\b", "\\f", "\\v", "\\r", "\\0", "\\\\\\\\"])),
            2 => {
                let v = *s.pick(&[0x41u32, 0, 0x7f, 0x80, 0xff, 0x27, 0x22, 0x5c, 0xe9, 0x0a]);
                let h = format!("{v:02x}");
                o.push_str(&format!("\\x{}", if s.coin() { h.to_uppercase() } else { h }));
            }
            3 if !bytes => {
                let v = *s.pick(&[0x41u32, 0, 0x20ac, 0xfffd, 0xffff, 0x3000, 0x0a, 0xabcd, 0x5c, 0xd7ff, 0xe000]);
                if s.coin() {
                    o.push_str(&format!("\\u{v:04x}"));
                } else {
                    let v = if s.coin() { v } else { *s.pick(&[0x1f600, 0x10ffff, 0x10000, 0x2f81a]) };
                    o.push_str(&format!("\\U{v:08X}"));
                }
            }
            3 | 4 => {
                let k = s.range(1, 3);
                o.push('\\');
                for i in 0..k {
                    let d = if i == 0 && k == 3 && !s.chance(1, 4) { s.n(4) } else { s.n(8) };
                    o.push_str(&d.to_string());
                }
                if s.coin() {
                    o.push_str(*s.pick(&["8", "9", "0", "1", "a"]));
                }
            }
            5 => {
                // unknown escapes are kept
                let c = *s.pick(&["\\q", "\\ ", "\\8", "\\#", "\\{", "\\é", "\\😀", "\\-", "\\z", "\\9", "\\A"]);
                if !bytes || c.is_ascii() {
                    o.push_str(c);
                }
            }
            6 => o.push_str(*s.pick(&["\\\n", "\\\r\n", "\\\n", "\\\r"])),
            _ if triple => o.push_str(*s.pick(&["\n", "\r\n", "\r", "\n\n", "\r\r\n", "'", "\"", "''", "\n    "])),
            _ => o.push_str(if q == "'" { "\"" } else { "'" }),
        }
        if broken && s.chance(1, 3) {
            o.push_str(*s.pick(&["\\x", "\\xé", "\\x4", "\\x4é", "\\u12", "\\u12é", "\\U1234567", "\\Uffffffff", "\\ud800", "\\x\\\\", "\\N", "\\u\\\\", "\\x\\n", "\\U0001F60é"]));
        }
    }
    // the literal must end where it is meant to
    let qc = q.chars().next().unwrap();
    let mut r = String::new();
    let cs: Vec<char> = o.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '\\' && i + 1 < cs.len() {
            r.push(cs[i]);
            r.push(cs[i + 1]);
            i += 2;
            continue;
        }
        if cs[i] == qc && (!triple || r.ends_with(qc) || i + 1 == cs.len()) {
            r.push('.');
        } else if cs[i] == '\\' {
            r.push('.');
        } else {
            r.push(cs[i]);
        }
        i += 1;
    }
    let _ = raw;
    format!("{prefix}{q}{r}{q}")
}

fn digits(s: &mut Src, set: &[&str], max: usize) -> String {
    let mut o = s.pick(set).to_string();
    for _ in 0..s.len(3, max) {
        if s.chance(1, 5) {
            o.push('_');
        }
        o.push_str(*s.pick(set));
    }
    o
}
const DEC: &[&str] = &["0", "1", "2", "3", "4", "5", "6", "7", "8", "9"];
const HEX: &[&str] = &["0", "1", "9", "a", "b", "c", "d", "e", "f", "A", "B", "E", "F"];

fn number(s: &mut Src) -> String {
    match s.n(9) {
        0 => {
            let d = digits(s, DEC, 60);
            // a decimal integer does not start with zero
            if d.bytes().any(|c| c != b'0' && c != b'_') && d.starts_with('0') { format!("1{d}") } else { d }
        }
        1 => format!("0{}{}{}", *s.pick(&["x", "X"]), if s.chance(1, 4) { "_" } else { "" }, digits(s, HEX, 40)),
        2 => format!("0{}{}{}", *s.pick(&["o", "O"]), if s.chance(1, 4) { "_" } else { "" }, digits(s, &DEC[..8], 30)),
        3 => format!("0{}{}{}", *s.pick(&["b", "B"]), if s.chance(1, 4) { "_" } else { "" }, digits(s, &DEC[..2], 80)),
        4 => s.pick(&["0", "00", "0_0", "000_00", "1", "10", "9999999999999999999999", "18446744073709551616", "0xdeadBEEF", "0xE", "0x1e5", "0xe"]).to_string(),
        5 => format!("{}.{}", digits(s, DEC, 5), if s.coin() { digits(s, DEC, 5) } else { String::new() }),
        6 => format!(".{}", digits(s, DEC, 5)),
        7 => format!("{}{}{}{}", digits(s, DEC, 4), *s.pick(&["e", "E", ".e", ".5E"]), *s.pick(&["", "+", "-"]), digits(s, DEC, 2)),
        _ => format!("{}{}", *s.pick(&["1", "0", "1.5", ".5", "1e5", "00", "1_0.0_1e1_0", "3."]), *s.pick(&["j", "J"])),
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}

pub fn c01(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = 1 + s.n(12);
    let broken = s.chance(1, 6);
    let mut items = vec![];
    for _ in 0..n {
        let item = match s.n(10) {
            0..5 => {
                let k = 1 + s.len(1, 3) / 2;
                let mut x = vec![];
                for _ in 0..k {
                    x.push(literal(s, false, broken));
                }
                x.join(*s.pick(&[" ", " ", "\t", "  ", "\\\n"]))
            }
            5..7 => literal(s, true, broken),
            _ => number(s),
        };
        items.push(item);
    }
    check_literals(&items, s, ctx)
}

fn check_literals(items: &[String], s: &mut Src, ctx: &mut Ctx) -> R {
    let mut text = String::new();
    let mut at = vec![];
    for i in items {
        let pre = *s.pick(&["", "# é\n", "\n", "x = 1\n"]);
        text.push_str(pre);
        at.push((text.len(), pre.starts_with('x')));
        text.push_str(i);
        text.push('\n');
    }
    ctx.note("input", &text);
    let want = ask("eval", &items.join("\0"));
    let Some(want) = want else { return Ok(()) };
    let want: Vec<&str> = want.split('\0').collect();
    let tree = Tree::parse(text.as_str().into());
    let mut exprs = vec![];
    for st in tree.root().iter_stmt_likes() {
        if let Some(e) = st.node.maybe_simple_expr() {
            exprs.push(e);
        }
    }
    for (k, item) in items.iter().enumerate() {
        let w = want[k];
        let Some(e) = exprs.iter().find(|e| e.start() as usize == at[k].0) else {
            ensure!(w.starts_with("ERR"), "not-an-expression", "{item:?} is {w} but there is no expression at {}", at[k].0);
            continue;
        };
        let Some(atom) = e.maybe_unpacked_atom() else {
            ensure!(w.starts_with("ERR"), "not-an-atom", "{item:?} is {w} but not an atom");
            continue;
        };
        let got = match &atom {
            AtomContent::Strings(st) => {
                let single = st.maybe_single_string_literal();
                if let Some(l) = &single {
                    // the raw content is what stands between the quotes
                    let code = l.as_code();
                    let p = code.find(['\'', '"']).unwrap();
                    let q = if code[p..].len() >= 6 && (code[p..].starts_with("'''") || code[p..].starts_with("\"\"\"")) { 3 } else { 1 };
                    let inner = &code[p + q..code.len() - q];
                    ensure!(l.content() == inner, "content", "content of {item:?} is {:?}", l.content());
                    let (a, b) = l.content_start_and_end_in_literal();
                    ensure!((a as usize, b as usize) == (p + q, code.len() - q), "content-range", "content of {item:?} at {a}..{b}");
                    let start = match l.as_python_string() {
                        PythonString::Ref(i, _) | PythonString::String(i, _) => i,
                        PythonString::FString => 0,
                    };
                    ensure!(start as usize == at[k].0 + p + q, "content-start", "content of {item:?} starts at {start}");
                    ensure!(
                        l.as_python_string().as_str() == st.as_python_string().as_str(),
                        "single",
                        "{item:?}: the value of the literal and of the expression differ"
                    );
                }
                let p = st.as_python_string();
                match p.as_str() {
                    Some(v) => format!("str {}", hex(v.as_bytes())),
                    None => "fstring".into(),
                }
            }
            AtomContent::Bytes(b) => match b.maybe_single_bytes_literal() {
                Some(b) => format!("bytes {}", hex(&b.content_as_bytes())),
                None => continue,
            },
            AtomContent::Int(i) => {
                let v = i.parse();
                ensure!(v.to_string() == i.parse_as_big_uint().to_string(), "int-sign", "{item}");
                format!("int {v}")
            }
            AtomContent::Float(_) => "float".into(),
            AtomContent::Complex(_) => "complex".into(),
            _ => "other".into(),
        };
        if w.starts_with("ERR") {
            ctx.class("rejected_by_cpython");
            continue;
        }
        // lone surrogates cannot be represented
        if w.contains("eda") || w.contains("edb") {
            let b: Vec<u8> = (4..w.len()).step_by(2).filter_map(|i| w.get(i..i + 2).and_then(|x| u8::from_str_radix(x, 16).ok())).collect();
            if w.starts_with("str ") && std::str::from_utf8(&b).is_err() {
                ctx.class("surrogate");
                continue;
            }
        }
        ctx.class(w.split(' ').next().unwrap());
        if got != w {
            let sig = if item.contains("\\N{") { "named-escape".to_string() } else { format!("value-{}", w.split(' ').next().unwrap()) };
            fail!(sig, "the value of {item:?} is {got} instead of {w}");
        }
        ctx.nontrivial(item);
    }
    Ok(())
}

/// One literal per file.
pub fn c01_text(text: &str, ctx: &mut Ctx) -> R {
    check_literals(&[text.trim_end_matches('\n').to_string()], &mut Src::from_choices(vec![]), ctx)
}

// ---------------------------------------------------------------- C03
fn unhex(h: &str) -> String {
    let b: Vec<u8> = (0..h.len()).step_by(2).map(|i| u8::from_str_radix(&h[i..i + 2], 16).unwrap()).collect();
    String::from_utf8_lossy(&b).into_owned()
}

/// Lines of text with indentation; with `odd`, also with unusual whitespace.
fn doc_text(s: &mut Src, odd: bool) -> String {
    let n = 1 + s.len(3, 8);
    let base = s.n(3) * 4;
    let mut o = String::new();
    for i in 0..n {
        if i > 0 {
            o.push('\n');
        }
        if s.chance(1, 5) {
            o.push_str(&" ".repeat(s.n(7)));
            continue;
        }
        if !(i == 0 && s.coin()) {
            o.push_str(&" ".repeat(base + if s.chance(1, 4) { s.n(6) } else { 0 }));
        }
        if odd && s.chance(1, 2) {
            for _ in 0..1 + s.n(3) {
                o.push_str(*s.pick(&["\u{3000}", "\u{a0}", "\t", " ", "\u{2003}", "\u{85}", "\r", "\x0c"]));
            }
            if s.chance(1, 4) {
                continue;
            }
        }
        o.push_str(*s.pick(&["Text.", "é: x", "日本語", "- a", ">>> f()", "a  b", "x ", "a\tb", "😀"]));
        if s.chance(1, 5) {
            o.push_str("  ");
        }
    }
    if s.chance(1, 8) {
        o.push_str(*s.pick(&["\t", "\n\t", "\n  \t "]));
    }
    o
}

fn same_lines(got: &str, want: &str) -> bool {
    let g: Vec<&str> = got.split('\n').collect();
    let w: Vec<&str> = want.split('\n').collect();
    g.len() == w.len() && g.iter().zip(&w).all(|(g, w)| g == w || (g.trim().is_empty() && w.trim().is_empty()))
}

pub fn c03(s: &mut Src, ctx: &mut Ctx) -> R {
    // removing the common indentation
    let odd = s.chance(1, 4);
    let t = doc_text(s, odd);
    ctx.note("text", &t);
    let d = utils::dedent(&t);
    if odd {
        // every line loses only whitespace at its start
        let (a, b): (Vec<&str>, Vec<&str>) = (t.split('\n').collect(), d.split('\n').collect());
        ensure!(a.len() == b.len(), "dedent-lines", "{t:?} became {d:?}");
        for (x, y) in a.iter().zip(&b) {
            ensure!(x.ends_with(y) && x[..x.len() - y.len()].trim().is_empty(), "dedent-line", "line {x:?} became {y:?}");
        }
        ctx.class("dedent_odd");
    } else {
        let Some(w) = ask("dedent", &t) else { return Ok(()) };
        ensure!(same_lines(&d, &w), "dedent", "dedent of {t:?} is {d:?} instead of {w:?}");
        ctx.class("dedent");
    }
    // docstrings
    let mut src = String::new();
    let n = 1 + s.n(5);
    let mut ind = 0;
    for i in 0..n {
        let pad = "    ".repeat(ind);
        if i > 0 || s.coin() {
            match s.n(6) {
                0 => src.push_str(&format!("{pad}class C(A):\n")),
                1 => src.push_str(&format!("{pad}async def f(a, b=1):\n")),
                2 => src.push_str(&format!("{pad}@dec\n{pad}def f[T](self) -> int:\n")),
                3 => src.push_str(&format!("{pad}@dec\n{pad}class C:\n\n")),
                4 => src.push_str(&format!("{pad}def f(): # comment\n")),
                _ => src.push_str(&format!("{pad}if x:\n")),
            }
            ind += 1;
        }
        let pad = "    ".repeat(ind);
        src.push_str(&pad);
        let t = doc_text(s, false);
        let one = t.replace('\n', " ");
        src.push_str(&match s.n(9) {
            0..4 => format!("\"\"\"{}\"\"\"\n", t.replace('\n', &format!("\n{pad}"))),
            4 => format!("r'''{t}'''\n"),
            5 => format!("\"{one}\" 'more'\n"),
            6 => format!("f'''{t}'''\n"),
            7 => format!("x = '{one}'\n"),
            _ => format!("'''{}'''\n", t.replace('\n', "\r\n")),
        });
        if s.coin() {
            src.push_str(&format!("{pad}\"no docstring\"\n"));
        }
        if s.chance(1, 3) {
            src.push_str(&format!("{pad}pass\n"));
        }
        while ind > 0 && s.chance(1, 3) {
            ind -= 1;
        }
    }
    check_docs(&src, ctx)
}

pub fn check_docs(src: &str, ctx: &mut Ctx) -> R {
    ctx.note("input", src);
    let Some(want) = ask("docs", src) else { return Ok(()) };
    if want == "ERR" {
        ctx.class("not_python");
        return Ok(());
    }
    let want: Vec<Option<(String, String)>> =
        want.lines().map(|l| if l == "-" { None } else { l.split_once(' ').map(|(a, b)| (unhex(&a[1..]), unhex(&b[1..]))) }).collect();
    let tree = Tree::parse(src.into());
    let root = tree.root();
    let mut got = vec![(root.docstring().and_then(|d| d.as_python_string().as_str().map(|s| s.to_string())), root.clean_docstring().into_owned())];
    for n in tree.filter_all_names(None) {
        let Some(d) = n.name_def() else { continue };
        let doc = if let Some(f) = d.maybe_name_of_func() {
            f.docstring()
        } else if let Some(c) = d.maybe_name_of_class() {
            c.docstring()
        } else {
            continue;
        };
        got.push((doc.and_then(|d| d.as_python_string().as_str().map(|s| s.to_string())), n.clean_docstring().into_owned()));
    }
    ensure!(got.len() == want.len(), "number", "{} docstring owners instead of {}", got.len(), want.len());
    for (i, ((raw, clean), w)) in got.iter().zip(&want).enumerate() {
        match w {
            None => ensure!(raw.is_none() && clean.is_empty(), "no-docstring", "owner {i} has no docstring, but got {raw:?} {clean:?}"),
            Some((wr, wc)) => {
                ensure!(raw.as_ref() == Some(wr), "raw", "docstring {i} is {raw:?} instead of {wr:?}");
                ensure!(same_lines(clean.trim(), wc), "clean", "clean docstring {i} is {clean:?} instead of {wc:?}");
                ensure!(clean.trim().is_empty() || clean.trim() == clean, "trim", "clean docstring {i} is {clean:?}");
                ctx.nontrivial(wr);
            }
        }
    }
    Ok(())
}
