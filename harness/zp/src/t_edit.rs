//! T05: the text of an open document after the client's edits is what the client has.
use crate::proj::*;
use config::Mode;
use lsp_types::{Position, Range, TextDocumentContentChangeEvent};
use std::cell::RefCell;
use vpcore::*;
use zuban_python::{InputPosition, Project};

const PIECES: &[&str] = &[
    "x", "ab ", "= 1", "\n", "\n", "\r\n", "\r\n", "ä", "ß", "€", "😀", "𝒳", "e\u{301}", "\t", "#", "'", "\"\"\"", "(", ")", ":", "\\", "\u{2028}", "\u{c}", "def f():", "    ", "return", "_y", "中文", "\u{85}", "\0",
];

fn text(s: &mut Src, n: usize) -> String {
    (0..n).map(|_| *s.pick(PIECES)).collect()
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Enc {
    Utf8,
    Utf16,
    Utf32,
}

/// Where the lines begin: after \n, \r\n and \r, as the protocol says.
fn line_starts(t: &str) -> Vec<usize> {
    let b = t.as_bytes();
    let mut v = vec![0];
    for i in 0..b.len() {
        if b[i] == b'\n' || b[i] == b'\r' && b.get(i + 1) != Some(&b'\n') {
            v.push(i + 1);
        }
    }
    v
}
fn width(c: char, e: Enc) -> u32 {
    match e {
        Enc::Utf8 => c.len_utf8() as u32,
        Enc::Utf16 => c.len_utf16() as u32,
        Enc::Utf32 => 1,
    }
}
fn position(t: &str, byte: usize, e: Enc) -> Position {
    let starts = line_starts(t);
    let line = starts.iter().rposition(|&x| x <= byte).unwrap();
    Position { line: line as u32, character: t[starts[line]..byte].chars().map(|c| width(c, e)).sum() }
}
/// Positions that a client can name: not within \r\n.
fn offsets(t: &str) -> Vec<usize> {
    let b = t.as_bytes();
    (0..=t.len()).filter(|&i| t.is_char_boundary(i) && !(i > 0 && b[i - 1] == b'\r' && b.get(i) == Some(&b'\n'))).collect()
}
fn input(p: Position, e: Enc) -> InputPosition {
    let (line, column) = (p.line as usize, p.character as usize);
    match e {
        Enc::Utf8 => InputPosition::Utf8Bytes { line, column },
        Enc::Utf16 => InputPosition::Utf16CodeUnits { line, column },
        Enc::Utf32 => InputPosition::CodePoints { line, column },
    }
}

thread_local! {
    static CACHE: RefCell<Option<(Project, u32)>> = const { RefCell::new(None) };
}

pub fn t05(s: &mut Src, ctx: &mut Ctx) -> R {
    let taken = CACHE.with(|c| c.borrow_mut().take());
    let (mut p, n) = match taken {
        Some(x) => x,
        None => (project(options(Mode::Default, "/nonexistent-vp/edit")), 0),
    };
    let r = run(s, ctx, &mut p);
    if n < 500 && r.is_ok() {
        CACHE.with(|c| *c.borrow_mut() = Some((p, n + 1)));
    }
    r
}

fn run(s: &mut Src, ctx: &mut Ctx, p: &mut Project) -> R {
    let e = *s.pick(&[Enc::Utf8, Enc::Utf16, Enc::Utf32]);
    let at = path(p, "/nonexistent-vp/edit/m.py");
    let n = s.n(14);
    let mut model = text(s, n);
    p.store_in_memory_file(at.clone(), model.clone().into());
    let mut trace = format!("{e:?}\nopen {model:?}\n");
    let mut edits = 0;
    for _ in 0..s.range(1, 4) {
        if s.chance(1, 3) {
            // Makes it count the lines
            trace += "ask\n";
            diags(p, &at);
        }
        let mut next = model.clone();
        let mut changes = vec![];
        let mut valid = true;
        for _ in 0..s.range(1, 4) {
            let n = s.n(5);
            let new = text(s, n);
            if s.chance(1, 8) {
                trace += &format!("all {new:?}\n");
                changes.push(TextDocumentContentChangeEvent { range: None, range_length: None, text: new.clone() });
                next = new;
                // What came before it does not matter any more
                valid = true;
                edits += 1;
                continue;
            }
            let o = offsets(&next);
            let (a, b) = (*s.pick(&o), *s.pick(&o));
            let (a, b) = (a.min(b), a.max(b));
            let mut range = Range { start: position(&next, a, e), end: position(&next, b, e) };
            if s.chance(1, 25) {
                // What no client should send is refused as a whole
                let wide = next[b..].chars().next().is_some_and(|c| width(c, e) > 1);
                match s.n(4) {
                    // within a character
                    3 if wide => range.end.character += 1,
                    0 => range.end.line += line_starts(&next).len() as u32 + 3,
                    1 => range.end.character += 10_000,
                    _ => {
                        if a == b {
                            continue;
                        }
                        range = Range { start: range.end, end: range.start };
                    }
                }
                valid = false;
            }
            trace += &format!("change {}:{}-{}:{} {new:?}\n", range.start.line, range.start.character, range.end.line, range.end.character);
            changes.push(TextDocumentContentChangeEvent { range: Some(range), range_length: None, text: new.clone() });
            next.replace_range(a..b, &new);
            edits += 1;
        }
        ctx.note("edits", trace.clone());
        let r = p.store_file_with_lsp_changes(at.clone(), changes, |x| input(x, e));
        match (&r, valid) {
            (Ok(()), true) => model = next,
            (Err(_), false) => ctx.class("refused"),
            (Ok(()), false) => fail!("accepted", "an invalid range was accepted:\n{trace}"),
            (Err(x), true) => fail!("refused", "refused ({x}):\n{trace}"),
        }
        trace += "sent\n";
        let got = p.code_of_in_memory_file(&at).map(|x| x.to_string());
        // The parser ends the last line, twice if it ends with a backslash
        let rest = got.as_deref().and_then(|g| g.strip_prefix(model.as_str()));
        ensure!(rest.is_some_and(|r| ["", "\n", "\n\n"].contains(&r)), "text", "the text is {got:?} instead of {model:?}:\n{trace}");
    }
    // The positions that are reported are those of the text
    let model = p.code_of_in_memory_file(&at).unwrap().to_string();
    let starts = line_starts(&model);
    let mut d = p.document(&at).unwrap();
    let mut seen = 0;
    for x in d.diagnostics().iter() {
        for q in [x.start_position(), x.end_position()] {
            let b = q.byte_position;
            ensure!(b <= model.len() && model.is_char_boundary(b), "byte", "{b} is not in {model:?}");
            let line = starts.iter().rposition(|&k| k <= b).unwrap();
            let part = &model[starts[line]..b];
            let want = (line, part.len(), part.chars().map(|c| c.len_utf16()).sum::<usize>(), part.chars().count());
            let got = (q.line_zero_based(), q.utf8_bytes_column(), q.utf16_code_units_column(), q.code_points_column());
            ensure!(want == got && q.line_one_based() == line + 1, "position", "byte {b} of {model:?} is at {got:?} instead of {want:?}");
            seen += 1;
        }
    }
    ctx.count("reported positions", seen);
    // Asking at any position in any encoding means the same
    let o = offsets(&model);
    let b = *s.pick(&o);
    let mut answers = vec![];
    for e in [Enc::Utf8, Enc::Utf16, Enc::Utf32] {
        let q = position(&model, b, e);
        let mut d = p.document(&at).unwrap();
        let r = d.goto(input(q, e), zuban_python::GotoGoal::PreferNonStubs, false, |n| format!("{} {:?}", n.name(), n.name_range().0.byte_position));
        answers.push(r.map(|x| format!("{x:?}")).map_err(|x| format!("{x}")));
    }
    ensure!(answers[0].is_ok() && answers[0] == answers[1] && answers[1] == answers[2], "encodings", "going to byte {b} of {model:?} gives {answers:?}");
    if edits > 0 {
        ctx.nontrivial(&trace);
    }
    if model.chars().any(|c| c.len_utf16() == 2) {
        ctx.class("astral");
    }
    Ok(())
}
