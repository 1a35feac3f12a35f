use crate::{K, Tk};
use vpcore::Src;

#[derive(Clone, Copy, Debug)]
pub struct Layout {
    /// 0: canonical; higher: more noise
    pub noise: u64,
    pub newline: &'static str,
    pub comments: bool,
    pub continuations: bool,
    pub blank_lines: bool,
    pub tabs: bool,
    pub formfeed: bool,
    pub final_newline: bool,
    pub leading: bool,
}

impl Layout {
    pub fn canonical() -> Self {
        Layout {
            noise: 0,
            newline: "\n",
            comments: false,
            continuations: false,
            blank_lines: false,
            tabs: false,
            formfeed: false,
            final_newline: true,
            leading: false,
        }
    }
    pub fn random(s: &mut Src) -> Self {
        Layout {
            noise: *s.pick(&[0, 0, 1, 2]),
            newline: *s.pick(&["\n", "\n", "\n", "\r\n", "\r"]),
            comments: s.coin(),
            continuations: s.coin(),
            blank_lines: s.coin(),
            tabs: s.chance(1, 3),
            formfeed: s.chance(1, 6),
            final_newline: !s.chance(1, 4),
            leading: s.chance(1, 4),
        }
    }
}

pub const COMMENTS: &[&str] = &[
    "#", "# c", "#x = 1", "# type: ignore", "#: é 日本", "# \"quote", "# (", "# \\", "#\tt ", "# '''", "# type: ignore[foo]",
    "# coding: latin-1x",
];

#[derive(Debug, Clone, Default)]
pub struct Rendered {
    pub text: String,
    /// byte span of every token of the input list (empty for Nl/Ind/Ded)
    pub spans: Vec<(usize, usize)>,
}

fn is_word_char(c: char) -> bool {
    c == '_' || c.is_alphanumeric()
}

fn needs_space(prev: &Tk, next: &Tk) -> bool {
    let Some(p) = prev.t.chars().last() else { return false };
    let Some(n) = next.t.chars().next() else { return false };
    let wordish = |k: K| matches!(k, K::Word | K::Num | K::Str | K::FStart);
    match (prev.k, next.k) {
        (K::FStart, _) | (K::FText, _) => false,
        (K::FOpen, _) => n == '{',
        (K::Word | K::Num, b) if wordish(b) => true,
        (K::Str | K::FEnd, b) if wordish(b) => {
            // 'a' 'b' and 'a'if: keep apart only where it could merge
            matches!(b, K::Str | K::FStart) || is_word_char(n)
        }
        (K::Num, K::Op) => n == '.' || n == '_',
        (K::Op, K::Num) => p == '.' || (p == '.' && n == '.'),
        (K::Op, K::Op) => {
            let opch = |c: char| "+-*/%@<>=!&|^~:.".contains(c);
            opch(p) && opch(n) && !(prev.t == "." && next.t == ".")
        }
        // `=` or `!`/`:` specifiers after an operator-like end
        (_, K::FSpec) => false,
        _ => is_word_char(p) && is_word_char(n),
    }
}

pub fn render(toks: &[Tk], l: Layout, s: &mut Src) -> Rendered {
    let mut r = Rendered { text: String::new(), spans: Vec::with_capacity(toks.len()) };
    let mut indents: Vec<String> = vec![String::new()];
    let mut line_start = true;
    let mut brackets = 0usize;
    // each entry: bracket depth at the start of an f-string field
    let mut fstack: Vec<usize> = vec![];
    let mut prev: Option<&Tk> = None;
    let mut i = 0;
    if l.leading {
        lead(&mut r.text, &l, s);
    }
    while i < toks.len() {
        let t = &toks[i];
        match t.k {
            K::Nl => {
                if l.noise > 0 && s.chance(1, 8) {
                    r.text.push_str(if l.tabs { "\t" } else { " " });
                }
                if l.comments && s.chance(1, 5) {
                    r.text.push_str(*s.pick(&["", " ", "  "]));
                    r.text.push_str(*s.pick(COMMENTS));
                }
                let last = toks[i + 1..].iter().all(|t| matches!(t.k, K::Ded | K::Nl));
                if last && !l.final_newline {
                    // nothing
                } else {
                    r.text.push_str(l.newline);
                    if l.blank_lines && s.chance(1, 4) {
                        lead(&mut r.text, &l, s);
                    }
                }
                r.spans.push((r.text.len(), r.text.len()));
                line_start = true;
                prev = None;
                i += 1;
                continue;
            }
            K::Ind => {
                let base = indents.last().unwrap().clone();
                let unit = if l.noise == 0 {
                    if l.tabs { "\t" } else { "    " }
                } else if l.tabs {
                    *s.pick(&["\t", "\t\t"])
                } else {
                    *s.pick(&["    ", " ", "  ", "   ", "        "])
                };
                indents.push(base + unit);
                r.spans.push((r.text.len(), r.text.len()));
                i += 1;
                continue;
            }
            K::Ded => {
                if indents.len() > 1 {
                    indents.pop();
                }
                r.spans.push((r.text.len(), r.text.len()));
                i += 1;
                continue;
            }
            _ => {}
        }
        if line_start {
            r.text.push_str(indents.last().unwrap());
            line_start = false;
        } else if let Some(p) = prev {
            let tight = matches!(t.k, K::FText | K::FSpec | K::FEnd)
                || (t.k == K::FOpen)
                || matches!(p.k, K::FStart | K::FText)
                // format specs and after: `}` directly
                || (t.k == K::FClose && matches!(p.k, K::FSpec | K::FText | K::FClose | K::FOpen))
                || (p.k == K::FClose && matches!(t.k, K::FOpen | K::FText | K::FEnd))
                || (p.k == K::FSpec);
            if !tight {
                let need = needs_space(p, t);
                ws(&mut r.text, &l, s, need, brackets > 0 && fstack.is_empty(), !fstack.is_empty(), p, t);
            }
        }
        let st = r.text.len();
        if l.newline != "\n" && matches!(t.k, K::Str | K::FText) && t.t.contains('\n') {
            r.text.push_str(&t.t.replace('\n', l.newline));
        } else {
            r.text.push_str(&t.t);
        }
        r.spans.push((st, r.text.len()));
        match t.k {
            K::Op => match t.t.as_str() {
                "(" | "[" | "{" => brackets += 1,
                ")" | "]" | "}" => brackets = brackets.saturating_sub(1),
                _ => {}
            },
            K::FOpen => fstack.push(brackets),
            K::FClose => {
                fstack.pop();
            }
            _ => {}
        }
        prev = Some(t);
        i += 1;
    }
    r
}

fn lead(t: &mut String, l: &Layout, s: &mut Src) {
    for _ in 0..s.n(3) {
        if l.noise > 0 && s.chance(1, 4) {
            t.push_str(*s.pick(&["  ", "\t", "      "]));
        }
        if l.comments && s.coin() {
            t.push_str(*s.pick(COMMENTS));
        }
        t.push_str(l.newline);
    }
    if l.formfeed && s.chance(1, 4) {
        t.push('\x0c');
        t.push_str(l.newline);
    }
}

#[allow(clippy::too_many_arguments)]
fn ws(out: &mut String, l: &Layout, s: &mut Src, need: bool, multi: bool, infield: bool, p: &Tk, t: &Tk) {
    if l.noise == 0 {
        // Canonical: one space where needed or between most tokens
        let glue = matches!(p.t.as_str(), "(" | "[" | "{" | "." | "~")
            || matches!(t.t.as_str(), ")" | "]" | "}" | "," | "." | ":" | ";" | "(" | "[");
        if need || !glue {
            out.push(' ');
        }
        if p.t == "," && glue && !matches!(t.t.as_str(), ")" | "]" | "}") {
            out.push(' ');
        }
        return;
    }
    let multi = multi || infield;
    if infield && !s.chance(1, 8) {
        if need || s.chance(1, 5) {
            out.push(' ');
        }
        return;
    }
    let k = s.n(if l.noise == 1 { 16 } else { 10 });
    match k {
        1 | 2 | 3 => out.push_str(if need { " " } else { "" }),
        4 => out.push_str("  "),
        5 if l.tabs => out.push('\t'),
        6 if l.continuations => {
            out.push_str(*s.pick(&[" ", ""]));
            out.push('\\');
            out.push_str(l.newline);
            out.push_str(*s.pick(&["", " ", "    "]));
            // without any indentation the tokens are still separated by the newline
        }
        7 if multi => {
            out.push_str(l.newline);
            out.push_str(*s.pick(&["", " ", "    ", "  "]));
        }
        8 if multi && l.comments => {
            out.push(' ');
            out.push_str(*s.pick(COMMENTS));
            out.push_str(l.newline);
            if s.coin() {
                out.push_str(l.newline);
            }
            out.push_str(*s.pick(&["", " ", "    "]));
        }
        9 if l.formfeed => {
            out.push(' ');
            out.push('\x0c');
        }
        _ => out.push(' '),
    }
}
