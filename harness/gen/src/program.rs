use crate::{K, Tk, tk};
use std::collections::BTreeSet;
use vpcore::Src;

pub const NAMES: &[&str] = &[
    "a", "b", "x", "foo", "self", "match", "case", "_", "type", "print", "é", "变量", "_a1", "Q", "cls", "exec",
    "nonl", "ifx", "f", "r", "b2", "αβ",
];

pub struct Gen<'s> {
    pub s: &'s mut Src,
    pub out: Vec<Tk>,
    pub fuel: i64,
    pub features: BTreeSet<&'static str>,
    /// depth of f-string fields, with the quotes in use
    fquotes: Vec<String>,
    /// In a format spec / f-string everything must stay on one line for single quotes
    pub allow_same_quotes: bool,
    depth: usize,
    pub ascii: bool,
    pub opts: Opts,
}

#[derive(Clone, Copy)]
pub struct Opts {
    pub fstrings: bool,
    pub multiline_strings: bool,
    pub defaults_312_only: bool,
    pub strings: bool,
}

impl Default for Opts {
    fn default() -> Self {
        Opts { fstrings: true, multiline_strings: true, defaults_312_only: true, strings: true }
    }
}

pub const L_NAMED: u8 = 0;
pub const L_EXPR: u8 = 1;
pub const L_DISJ: u8 = 2;
pub const L_CONJ: u8 = 3;
pub const L_INV: u8 = 4;
pub const L_CMP: u8 = 5;
pub const L_BOR: u8 = 6;
pub const L_XOR: u8 = 7;
pub const L_AND: u8 = 8;
pub const L_SHIFT: u8 = 9;
pub const L_SUM: u8 = 10;
pub const L_TERM: u8 = 11;
pub const L_FACTOR: u8 = 12;
pub const L_POWER: u8 = 13;
pub const L_AWAIT: u8 = 14;
pub const L_PRIMARY: u8 = 15;
pub const L_ATOM: u8 = 16;

impl<'s> Gen<'s> {
    pub fn new(s: &'s mut Src, fuel: i64) -> Self {
        Gen {
            s,
            out: vec![],
            fuel,
            features: BTreeSet::new(),
            fquotes: vec![],
            allow_same_quotes: false,
            depth: 0,
            ascii: false,
            opts: Opts::default(),
        }
    }
    pub fn w(&mut self, t: &str) {
        self.out.push(tk(K::Word, t));
    }
    pub fn o(&mut self, t: &str) {
        self.out.push(tk(K::Op, t));
    }
    fn feat(&mut self, f: &'static str) {
        self.features.insert(f);
    }
    fn nl(&mut self) {
        self.out.push(tk(K::Nl, ""));
    }
    pub fn name_str(&mut self) -> String {
        if self.s.chance(1, 24) {
            return self.odd_name();
        }
        let i = self.s.n(NAMES.len());
        let n = NAMES[i];
        if self.ascii && !n.is_ascii() {
            return "a".into();
        }
        if matches!(n, "match" | "case" | "_" | "type") {
            self.feat("soft_kw_name");
        }
        if !n.is_ascii() {
            self.feat("unicode_name");
        }
        n.to_string()
    }
    /// Names that resemble keywords, and names of all kinds of letters (normalized, without marks).
    fn odd_name(&mut self) -> String {
        if self.s.coin() {
            self.feat("keyword_like_name");
            let k = *self.s.pick(&[
                "if", "in", "is", "not", "None", "True", "import", "lambda", "await", "async", "def", "class", "match", "case",
                "type", "return", "del", "else", "rf", "b", "u", "j", "e5", "x0", "pass", "print", "assert", "nonlocal", "global",
            ]);
            let x = *self.s.pick(&["_", "1", "x", "_0", "S", "__"]);
            return if self.s.chance(1, 3) && !k.ends_with('5') { format!("{}{k}", x.replace('1', "a")) } else { format!("{k}{x}") };
        }
        if self.ascii {
            return "a1".into();
        }
        self.feat("unicode_name");
        let start = *self.s.pick(&["x", "ж", "Ω", "ß", "ş", "ا", "ก", "ક", "ひ", "カ", "한", "𠀀", "𐌰", "ə", "_"]);
        let rest = *self.s.pick(&["", "1", "_2", "٣", "ñ", "中", "𠀀"]);
        format!("{start}{rest}")
    }
    pub fn name(&mut self) {
        let n = self.name_str();
        self.w(&n);
    }
    /// a name that is not `_` (capture patterns)
    fn cap_name(&mut self) {
        let mut n = self.name_str();
        if n == "_" {
            n = "a".into();
        }
        self.w(&n);
    }
    fn low(&self) -> bool {
        self.fuel <= 0 || self.depth > 25
    }

    // ---------- expressions
    pub fn expr(&mut self, need: u8) {
        self.depth += 1;
        self.expr_inner(need);
        self.depth -= 1;
    }
    fn paren_if(&mut self, have: u8, need: u8, f: impl FnOnce(&mut Self)) {
        if have < need {
            self.o("(");
            f(self);
            self.o(")");
        } else {
            f(self)
        }
    }
    fn expr_inner(&mut self, need: u8) {
        self.fuel -= 1;
        if self.low() {
            return self.simple_atom();
        }
        match self.s.weighted(&[14, 12, 3, 2, 2, 2, 2, 2, 3, 2, 2, 6, 2, 2, 2, 2]) {
            0 => self.simple_atom(),
            1 => self.primary(),
            2 => {
                // binary arithmetic
                let (lvl, op) = *self.s.pick(&[
                    (L_SUM, "+"),
                    (L_SUM, "-"),
                    (L_TERM, "*"),
                    (L_TERM, "/"),
                    (L_TERM, "//"),
                    (L_TERM, "%"),
                    (L_TERM, "@"),
                    (L_SHIFT, "<<"),
                    (L_SHIFT, ">>"),
                    (L_AND, "&"),
                    (L_XOR, "^"),
                    (L_BOR, "|"),
                ]);
                self.feat("binop");
                self.paren_if(lvl, need, |g| {
                    g.expr(lvl);
                    g.o(op);
                    g.expr(lvl + 1);
                });
            }
            3 => {
                self.feat("power");
                self.paren_if(L_POWER, need, |g| {
                    g.expr(L_AWAIT);
                    g.o("**");
                    g.expr(L_FACTOR);
                });
            }
            4 => {
                self.feat("unary");
                let op = *self.s.pick(&["-", "+", "~"]);
                self.paren_if(L_FACTOR, need, |g| {
                    g.o(op);
                    g.expr(L_FACTOR);
                });
            }
            5 => {
                self.feat("not");
                self.paren_if(L_INV, need, |g| {
                    g.w("not");
                    g.expr(L_INV);
                });
            }
            6 => {
                self.feat("boolop");
                let (l, op) = *self.s.pick(&[(L_CONJ, "and"), (L_DISJ, "or")]);
                let n = 1 + self.s.len(1, 3);
                self.paren_if(l, need, |g| {
                    g.expr(l + 1);
                    for _ in 0..n {
                        g.w(op);
                        g.expr(l + 1);
                    }
                });
            }
            7 => {
                self.feat("compare");
                let n = 1 + self.s.len(1, 2);
                self.paren_if(L_CMP, need, |g| {
                    g.expr(L_BOR);
                    for _ in 0..n {
                        match g.s.n(10) {
                            0 => g.o("=="),
                            1 => g.o("!="),
                            2 => g.o("<"),
                            3 => g.o(">"),
                            4 => g.o("<="),
                            5 => g.o(">="),
                            6 => g.w("in"),
                            7 => g.w("is"),
                            8 => {
                                g.w("not");
                                g.w("in");
                            }
                            _ => {
                                g.w("is");
                                g.w("not");
                            }
                        }
                        g.expr(L_BOR);
                    }
                });
            }
            8 => {
                self.feat("ternary");
                self.paren_if(L_EXPR, need, |g| {
                    g.expr(L_DISJ);
                    g.w("if");
                    g.expr(L_DISJ);
                    g.w("else");
                    g.expr(L_EXPR);
                });
            }
            9 => {
                self.feat("lambda");
                // a lambda's colon is not possible inside an f-string field without brackets
                let need = if self.fquotes.is_empty() { need } else { L_ATOM };
                self.paren_if(L_EXPR, need, |g| {
                    g.w("lambda");
                    g.params(true);
                    g.o(":");
                    g.expr(L_EXPR);
                });
            }
            10 => {
                self.feat("walrus");
                let need = if self.fquotes.is_empty() { need } else { L_ATOM };
                self.paren_if(L_NAMED, need, |g| {
                    g.name();
                    g.o(":=");
                    g.expr(L_EXPR);
                });
            }
            11 => self.display(),
            12 => {
                self.feat("await");
                self.paren_if(L_AWAIT, need, |g| {
                    g.w("await");
                    g.expr(L_PRIMARY);
                });
            }
            13 => {
                self.feat("yield");
                self.o("(");
                self.yield_expr();
                self.o(")");
            }
            14 => {
                // redundant parentheses
                self.feat("parens");
                self.o("(");
                self.expr(L_NAMED);
                self.o(")");
            }
            _ => self.expr_inner(need),
        }
    }

    pub fn yield_expr(&mut self) {
        self.w("yield");
        match self.s.n(3) {
            0 => {}
            1 => self.star_exprs(),
            _ => {
                self.w("from");
                self.expr(L_EXPR);
            }
        }
    }

    /// star_expressions: a possible tuple
    pub fn star_exprs(&mut self) {
        match self.s.weighted(&[6, 2, 1]) {
            0 => self.expr(L_EXPR),
            1 => {
                self.feat("tuple");
                let n = 1 + self.s.len(1, 3);
                for i in 0..n {
                    if i > 0 {
                        self.o(",");
                    }
                    if self.s.chance(1, 5) {
                        self.feat("star");
                        self.o("*");
                        self.expr(L_BOR);
                    } else {
                        self.expr(L_EXPR);
                    }
                }
                if n == 1 || self.s.chance(1, 4) {
                    self.o(",");
                }
            }
            _ => {
                self.o("*");
                self.expr(L_BOR);
                self.o(",");
            }
        }
    }

    fn star_named(&mut self) {
        if self.s.chance(1, 6) {
            self.feat("star");
            self.o("*");
            self.expr(L_BOR);
        } else {
            self.expr(L_NAMED);
        }
    }

    fn list_of(&mut self, min: usize, f: impl Fn(&mut Self)) {
        let n = min + self.s.len(2, 4);
        for i in 0..n {
            if i > 0 {
                self.o(",");
            }
            f(self);
        }
        if n > 0 && self.s.chance(1, 5) {
            self.o(",");
        }
    }

    fn comp_for(&mut self) {
        let n = 1 + self.s.len(1, 2) / 2;
        self.feat("comprehension");
        for _ in 0..n {
            if self.s.chance(1, 6) {
                self.feat("async_comp");
                self.w("async");
            }
            self.w("for");
            self.star_targets();
            self.w("in");
            self.expr(L_DISJ);
            for _ in 0..self.s.len(1, 2) {
                self.w("if");
                self.expr(L_DISJ);
            }
        }
    }

    fn display(&mut self) {
        match self.s.n(10) {
            0 => {
                self.feat("list");
                self.o("[");
                self.list_of(0, |g| g.star_named());
                self.o("]");
            }
            1 => {
                self.feat("tuple");
                self.o("(");
                match self.s.n(3) {
                    0 => {}
                    1 => {
                        self.star_named();
                        self.o(",");
                    }
                    _ => {
                        self.star_named();
                        self.o(",");
                        self.list_of(1, |g| g.star_named());
                    }
                }
                self.o(")");
            }
            2 => {
                self.feat("set");
                self.o("{");
                self.list_of(1, |g| g.star_named());
                self.o("}");
            }
            3 => {
                self.feat("dict");
                self.o("{");
                self.list_of(0, |g| {
                    if g.s.chance(1, 5) {
                        g.feat("dict_star");
                        g.o("**");
                        g.expr(L_BOR);
                    } else {
                        g.expr(L_EXPR);
                        g.o(":");
                        g.expr(L_EXPR);
                    }
                });
                self.o("}");
            }
            4 => {
                self.o("[");
                self.expr(L_NAMED);
                self.comp_for();
                self.o("]");
            }
            5 => {
                self.o("{");
                self.expr(L_NAMED);
                self.comp_for();
                self.o("}");
            }
            6 => {
                self.feat("dictcomp");
                self.o("{");
                self.expr(L_EXPR);
                self.o(":");
                self.expr(L_EXPR);
                self.comp_for();
                self.o("}");
            }
            7 => {
                self.feat("genexp");
                self.o("(");
                self.expr(L_NAMED);
                self.comp_for();
                self.o(")");
            }
            _ => self.strings(),
        }
    }

    fn simple_atom(&mut self) {
        match self.s.weighted(&[10, 3, 1, 1, 1, 2]) {
            0 => self.name(),
            1 => self.number(),
            2 => self.w("None"),
            3 => {
                let t = *self.s.pick(&["True", "False"]);
                self.w(t)
            }
            4 => self.o("..."),
            _ => {
                if self.low() || !self.opts.strings {
                    if self.opts.strings { self.out.push(tk(K::Str, "''")) } else { self.name() }
                } else {
                    self.strings()
                }
            }
        }
    }

    fn digits(&mut self, set: &str, max: usize) -> String {
        let cs: Vec<char> = set.chars().collect();
        let mut r = String::new();
        let n = 1 + self.s.len(1, max);
        for i in 0..n {
            if i > 0 && self.s.chance(1, 4) {
                r.push('_');
            }
            let c = *self.s.pick(&cs);
            r.push(c);
        }
        r
    }

    fn decimal(&mut self) -> String {
        if self.s.chance(1, 5) {
            // Zeros only, because a leading zero is not allowed
            self.digits("0", 3)
        } else {
            let mut r = (*self.s.pick(&["1", "2", "5", "9"])).to_string();
            if self.s.coin() {
                if self.s.chance(1, 3) {
                    r.push('_');
                }
                r.push_str(&self.digits("0123456789", 4));
            }
            r
        }
    }

    fn float(&mut self) -> String {
        // Leading zeros are allowed here.
        let int = self.digits("0123456789", 3);
        let frac = self.digits("0123456789", 3);
        let mut exp = (*self.s.pick(&["e", "E"])).to_string();
        exp.push_str(*self.s.pick(&["", "", "+", "-"]));
        exp.push_str(&self.digits("0123456789", 2));
        match self.s.n(8) {
            0 => format!("{int}."),
            1 => format!(".{frac}"),
            2 => format!("{int}{exp}"),
            3 => format!("{int}.{exp}"),
            4 => format!(".{frac}{exp}"),
            5 => format!("{int}.{frac}{exp}"),
            _ => format!("{int}.{frac}"),
        }
    }

    pub fn number_text(&mut self) -> String {
        match self.s.n(9) {
            0 => (*self.s.pick(&["1", "0", "42", "1_000", "1.5", "2j"])).to_string(),
            1 | 2 => self.decimal(),
            3 => {
                let p = *self.s.pick(&["0x", "0X", "0x_"]);
                format!("{p}{}", self.digits("0123456789abcdefABCDEF", 6))
            }
            4 => {
                let p = *self.s.pick(&["0b", "0B", "0b_"]);
                format!("{p}{}", self.digits("01", 6))
            }
            5 => {
                let p = *self.s.pick(&["0o", "0O", "0o_"]);
                format!("{p}{}", self.digits("01234567", 6))
            }
            6 => self.float(),
            _ => self.imaginary_text(),
        }
    }

    pub fn imaginary_text(&mut self) -> String {
        let n = if self.s.coin() { self.digits("0123456789", 3) } else { self.float() };
        n + *self.s.pick(&["j", "J"])
    }

    pub fn number(&mut self) {
        let t = self.number_text();
        self.out.push(tk(K::Num, t));
    }

    fn body_text(&mut self, quote: &str, raw: bool, bytes: bool, fstring: bool) -> String {
        let mut r = String::new();
        let n = self.s.len(3, 10);
        let triple = quote.len() == 3;
        for _ in 0..n {
            match self.s.n(16) {
                0..=4 => r.push_str(*self.s.pick(&["a", "bc", " ", "1", "# c", ",", "x.y"])),
                5 => {
                    if bytes || self.ascii {
                        r.push('z')
                    } else {
                        r.push_str(*self.s.pick(&["é", "日本", "😀", "\u{a0}"]))
                    }
                }
                6 => r.push_str("\\n"),
                7 => r.push_str("\\\\"),
                8 => {
                    if !raw {
                        r.push_str(*self.s.pick(&["\\x41", "\\101", "\\t", "\\0"]))
                    } else {
                        r.push_str("\\x")
                    }
                }
                9 => {
                    if !raw && !bytes {
                        r.push_str(*self.s.pick(&["\\u00e9", "\\U0001F600", "\\u0041"]))
                    } else {
                        r.push_str("\\u")
                    }
                }
                10 => {
                    // the other quote
                    let c = if quote.starts_with('"') { '\'' } else { '"' };
                    if fstring && self.fquotes.iter().any(|q| q.starts_with(c)) && !self.allow_same_quotes {
                        r.push('q')
                    } else {
                        r.push(c)
                    }
                }
                11 => {
                    r.push('\\');
                    r.push(quote.chars().next().unwrap());
                }
                12 => {
                    if triple && self.opts.multiline_strings && self.fquotes.is_empty() {
                        self.feat("multiline_string");
                        r.push('\n');
                    } else {
                        r.push('-')
                    }
                }
                13 => {
                    if triple && !r.ends_with('\\') {
                        // one or two quotes inside, followed by something else
                        r.push(quote.chars().next().unwrap());
                        r.push('k');
                    }
                }
                14 => {
                    if !raw && self.opts.multiline_strings && self.fquotes.is_empty() {
                        self.feat("string_continuation");
                        r.push_str("\\\n");
                    }
                }
                _ => {
                    if fstring {
                        r.push_str(*self.s.pick(&["{{", "}}"]))
                    } else {
                        r.push_str(*self.s.pick(&["{", "}"]))
                    }
                }
            }
        }
        r
    }

    fn pick_quote(&mut self) -> String {
        let all = ["'", "\"", "'''", "\"\"\""];
        let n = self.s.n(4);
        let mut q = all[n].to_string();
        if !self.fquotes.is_empty() {
            // Python < 3.12 compatible nesting: use a quote character that is not in use
            if !self.allow_same_quotes {
                for c in ["'", "\"", "'''", "\"\"\""] {
                    let clash = self.fquotes.iter().any(|f| f.chars().next() == c.chars().next());
                    if !clash {
                        q = c.to_string();
                        break;
                    }
                    q.clear();
                }
            }
        }
        q
    }

    fn in_use_both(&self) -> bool {
        let a = self.fquotes.iter().any(|f| f.starts_with('"'));
        let b = self.fquotes.iter().any(|f| f.starts_with('\''));
        a && b
    }

    pub fn strings(&mut self) {
        if !self.opts.strings || (self.in_use_both() && !self.allow_same_quotes) {
            return self.name();
        }
        if !self.fquotes.is_empty() {
            self.feat("string_in_fstring");
        }
        let bytes = self.s.chance(1, 5);
        let n = 1 + self.s.len(1, 4) / 2;
        if n > 1 {
            self.feat("string_concat");
        }
        for _ in 0..n {
            if bytes {
                self.feat("bytes");
                let p = *self.s.pick(&["b", "B", "b", "rb", "bR", "Rb", "br", "rB", "Br", "RB", "BR"]);
                let q = self.pick_quote();
                let raw = p.len() == 2;
                let b = self.body_text(&q, raw, true, false);
                let b = fix_tail(b, &q);
                self.out.push(tk(K::Str, format!("{p}{q}{b}{q}")));
            } else if self.opts.fstrings && self.s.chance(1, 3) && self.fquotes.len() < 3 {
                self.fstring();
            } else {
                let p = *self.s.pick(&["", "", "", "r", "u", "R", "U"]);
                let q = self.pick_quote();
                let raw = p.eq_ignore_ascii_case("r");
                let in_f = !self.fquotes.is_empty();
                let b = self.body_text(&q, raw, false, in_f);
                let b = fix_tail(b, &q);
                // Backslashes in nested strings are 3.12 only
                let b = if in_f && !self.allow_same_quotes { b.replace('\\', "/").replace(['{', '}', '#'], "") } else { b };
                self.out.push(tk(K::Str, format!("{p}{q}{b}{q}")));
            }
        }
    }

    fn fstring(&mut self) {
        if self.in_use_both() && !self.allow_same_quotes {
            return self.out.push(tk(K::Num, "1"));
        }
        self.feat("fstring");
        let p = *self.s.pick(&["f", "F", "f", "rf", "fr", "Rf", "fR", "rF", "Fr", "RF", "FR"]);
        let raw = p.len() == 2;
        let q = self.pick_quote();
        if q.is_empty() {
            return self.name();
        }
        if !self.fquotes.is_empty() {
            self.feat("nested_fstring");
        }
        self.out.push(tk(K::FStart, format!("{p}{q}")));
        let n = self.s.len(2, 4);
        for _ in 0..n {
            if self.s.coin() {
                let in_f = !self.fquotes.is_empty();
                let b = self.body_text(&q, raw, false, true);
                let b = fix_tail(b, &q);
                let b = if in_f && !self.allow_same_quotes { b.replace('\\', "/").replace('#', "") } else { b };
                if !b.is_empty() {
                    self.out.push(tk(K::FText, b));
                }
            } else {
                self.fstring_field(&q, 0);
            }
        }
        self.out.push(tk(K::FEnd, q));
    }

    fn fstring_field(&mut self, q: &str, spec_depth: usize) {
        self.out.push(tk(K::FOpen, "{"));
        self.fquotes.push(q.to_string());
        self.fuel -= 2;
        if self.s.chance(1, 6) {
            self.expr(L_EXPR);
            self.o(",");
            self.expr(L_EXPR);
        } else {
            self.expr(L_EXPR);
        }
        self.fquotes.pop();
        if self.s.chance(1, 6) {
            self.feat("fstring_debug");
            let c = *self.s.pick(&["=", "=", " =", "= ", " = "]);
            self.out.push(tk(K::FSpec, c));
        }
        if self.s.chance(1, 5) {
            self.feat("fstring_conversion");
            let c = *self.s.pick(&["!r", "!s", "!a", " !r", "!s ", "!a"]);
            self.out.push(tk(K::FSpec, c));
        }
        if self.s.chance(1, 3) {
            self.feat("fstring_spec");
            let c = *self.s.pick(&[":", ":", ":", " :", "  :"]);
            self.out.push(tk(K::FSpec, c));
            for _ in 0..self.s.len(1, 3) {
                if self.s.chance(1, 3) && spec_depth == 0 && (self.allow_same_quotes || self.fquotes.is_empty()) {
                    self.feat("fstring_nested_spec");
                    self.fstring_field(q, 1);
                } else {
                    let t = *self.s.pick(&[">10", ".2f", "x", "^", " ", "d", "%Y-%m", "<", "=+", "!r", "#x", ":", "{{", "a"]);
                    self.out.push(tk(K::FText, t));
                }
            }
        }
        self.out.push(tk(K::FClose, "}"));
    }

    fn primary(&mut self) {
        // base
        let k = self.s.n(10);
        self.fuel -= 1;
        match k {
            0..=5 => self.name(),
            6 => self.display(),
            7 => {
                self.o("(");
                self.expr(L_NAMED);
                self.o(")");
            }
            8 => self.strings(),
            _ => self.simple_atom(),
        }
        for _ in 0..1 + self.s.len(1, 3) {
            self.trailer();
        }
    }

    fn trailer(&mut self) {
        match self.s.n(4) {
            0 | 1 => {
                self.feat("attr");
                self.o(".");
                self.name();
            }
            2 => {
                self.feat("call");
                self.o("(");
                self.call_args();
                self.o(")");
            }
            _ => {
                self.feat("index");
                self.o("[");
                self.slices();
                self.o("]");
            }
        }
    }

    fn slices(&mut self) {
        let n = 1 + self.s.len(1, 4) / 2;
        for i in 0..n {
            if i > 0 {
                self.o(",");
            }
            match self.s.n(6) {
                0..=2 => self.expr(L_NAMED),
                3 => {
                    self.feat("star_index");
                    self.o("*");
                    self.expr(L_BOR);
                }
                _ => {
                    self.feat("slice");
                    if self.s.coin() {
                        self.expr(L_EXPR);
                    }
                    self.o(":");
                    if self.s.coin() {
                        self.expr(L_EXPR);
                    }
                    if self.s.chance(1, 3) {
                        self.o(":");
                        if self.s.coin() {
                            self.expr(L_EXPR);
                        }
                    }
                }
            }
        }
        if self.s.chance(1, 6) {
            self.o(",");
        }
    }

    pub fn call_args(&mut self) {
        match self.s.n(6) {
            0 => {}
            1 if !self.low() => {
                self.feat("call_genexp");
                self.expr(L_NAMED);
                self.comp_for();
            }
            _ => {
                // positional/star, then kw/star, then kw/**
                let mut n = 0;
                let sep = |g: &mut Self, n: &mut usize| {
                    if *n > 0 {
                        g.o(",");
                    }
                    *n += 1;
                };
                for _ in 0..self.s.len(2, 4) {
                    sep(self, &mut n);
                    if self.s.chance(1, 5) {
                        self.feat("star_arg");
                        self.o("*");
                        self.expr(L_EXPR);
                    } else {
                        self.expr(L_NAMED);
                    }
                }
                for _ in 0..self.s.len(1, 3) {
                    sep(self, &mut n);
                    if self.s.chance(1, 4) {
                        self.o("*");
                        self.expr(L_EXPR);
                    } else {
                        self.feat("kwarg");
                        self.name();
                        self.o("=");
                        self.expr(L_EXPR);
                    }
                }
                for _ in 0..self.s.len(1, 4) / 2 {
                    sep(self, &mut n);
                    if self.s.coin() {
                        self.feat("star_star_arg");
                        self.o("**");
                        self.expr(L_EXPR);
                    } else {
                        self.name();
                        self.o("=");
                        self.expr(L_EXPR);
                    }
                }
                if n > 0 && self.s.chance(1, 5) {
                    self.o(",");
                }
            }
        }
    }

    pub fn params(&mut self, lambda: bool) {
        let npos = self.s.len(2, 4);
        let mut n = 0;
        let mut default = false;
        let slash_at = if npos > 0 && self.s.chance(1, 4) { Some(self.s.n(npos)) } else { None };
        for i in 0..npos {
            if n > 0 {
                self.o(",");
            }
            n += 1;
            self.name();
            if !lambda && self.s.chance(1, 3) {
                self.feat("annotation");
                self.o(":");
                self.expr(L_EXPR);
            }
            if default || self.s.chance(1, 4) {
                default = true;
                self.feat("default");
                self.o("=");
                self.expr(L_EXPR);
            }
            if slash_at == Some(i) {
                self.feat("pos_only");
                self.o(",");
                self.o("/");
            }
        }
        let mut star = false;
        match self.s.n(5) {
            0 | 1 => {}
            2 => {
                if n > 0 {
                    self.o(",");
                }
                n += 1;
                self.feat("vararg");
                self.o("*");
                self.name();
                if !lambda && self.s.chance(1, 3) {
                    self.o(":");
                    if self.s.chance(1, 3) {
                        self.feat("star_annotation");
                        self.o("*");
                        self.expr(L_BOR);
                    } else {
                        self.expr(L_EXPR);
                    }
                }
                star = true;
            }
            _ => {
                if n > 0 {
                    self.o(",");
                }
                n += 1;
                self.feat("bare_star");
                self.o("*");
                self.o(",");
                self.kwonly(lambda);
                star = true;
            }
        }
        if star {
            for _ in 0..self.s.len(1, 2) {
                self.o(",");
                self.kwonly(lambda);
            }
        }
        if self.s.chance(1, 4) {
            if n > 0 {
                self.o(",");
            }
            n += 1;
            self.feat("kwargs_param");
            self.o("**");
            self.name();
            if !lambda && self.s.chance(1, 3) {
                self.o(":");
                self.expr(L_EXPR);
            }
        }
        if n > 0 && self.s.chance(1, 6) {
            self.o(",");
        }
    }
    fn kwonly(&mut self, lambda: bool) {
        self.name();
        if !lambda && self.s.chance(1, 3) {
            self.o(":");
            self.expr(L_EXPR);
        }
        if self.s.coin() {
            self.o("=");
            self.expr(L_EXPR);
        }
    }

    // ---------- targets
    pub fn star_targets(&mut self) {
        if self.s.chance(1, 3) {
            self.feat("tuple_target");
            let n = 1 + self.s.len(1, 3);
            for i in 0..n {
                if i > 0 {
                    self.o(",");
                }
                self.star_target();
            }
            if n == 1 || self.s.chance(1, 5) {
                self.o(",");
            }
        } else {
            self.target(true);
        }
    }
    fn star_target(&mut self) {
        if self.s.chance(1, 5) {
            self.feat("star_target");
            self.o("*");
        }
        self.target(true);
    }
    pub fn target(&mut self, brackets: bool) {
        self.fuel -= 1;
        self.depth += 1;
        match self.s.weighted(&[10, 4, 4, if brackets && !self.low() { 3 } else { 0 }]) {
            0 => self.name(),
            1 => {
                self.feat("attr_target");
                self.target_base();
                self.o(".");
                self.name();
            }
            2 => {
                self.feat("index_target");
                self.target_base();
                self.o("[");
                self.slices();
                self.o("]");
            }
            _ => {
                self.feat("bracket_target");
                match self.s.n(4) {
                    0 => {
                        self.o("(");
                        self.target(true);
                        self.o(")");
                    }
                    1 => {
                        self.o("(");
                        let n = self.s.n(4);
                        for i in 0..n {
                            if i > 0 {
                                self.o(",");
                            }
                            self.star_target();
                        }
                        if n == 1 || (n > 0 && self.s.chance(1, 5)) {
                            self.o(",");
                        }
                        self.o(")");
                    }
                    _ => {
                        self.o("[");
                        let n = self.s.n(4);
                        for i in 0..n {
                            if i > 0 {
                                self.o(",");
                            }
                            self.star_target();
                        }
                        if n > 0 && self.s.chance(1, 5) {
                            self.o(",");
                        }
                        self.o("]");
                    }
                }
            }
        }
        self.depth -= 1;
    }
    fn target_base(&mut self) {
        if self.low() || self.s.chance(2, 3) {
            self.name()
        } else {
            match self.s.n(3) {
                0 => {
                    self.o("(");
                    self.expr(L_NAMED);
                    self.o(")");
                }
                1 => self.display(),
                _ => self.name(),
            }
        }
        for _ in 0..self.s.len(1, 2) {
            self.trailer();
        }
    }
    fn del_target(&mut self) {
        self.fuel -= 1;
        match self.s.weighted(&[6, 3, 3, if self.low() { 0 } else { 2 }]) {
            0 => self.name(),
            1 => {
                self.target_base();
                self.o(".");
                self.name();
            }
            2 => {
                self.target_base();
                self.o("[");
                self.slices();
                self.o("]");
            }
            _ => {
                self.feat("bracket_target");
                let (a, b) = *self.s.pick(&[("(", ")"), ("[", "]")]);
                self.o(a);
                let n = self.s.n(4);
                for i in 0..n {
                    if i > 0 {
                        self.o(",");
                    }
                    self.del_target();
                }
                if n > 0 && self.s.chance(1, 5) {
                    self.o(",");
                }
                self.o(b);
            }
        }
    }

    // ---------- statements
    pub fn file(&mut self, mean: usize, max: usize) {
        let n = self.s.len(mean, max);
        for _ in 0..n {
            self.stmt();
        }
    }

    pub fn block(&mut self) {
        if self.low() || self.s.chance(1, 4) {
            self.feat("inline_block");
            self.simple_line();
        } else {
            self.nl();
            self.out.push(tk(K::Ind, ""));
            let n = 1 + self.s.len(1, 4);
            self.depth += 2;
            for _ in 0..n {
                self.stmt();
            }
            self.depth -= 2;
            self.out.push(tk(K::Ded, ""));
        }
    }

    pub fn simple_line(&mut self) {
        self.simple_stmt();
        let n = self.s.len(1, 4) / 2;
        for _ in 0..n {
            self.feat("semicolon");
            self.o(";");
            self.simple_stmt();
        }
        if self.s.chance(1, 10) {
            self.o(";");
        }
        self.nl();
    }

    fn rhs(&mut self) {
        if self.s.chance(1, 8) {
            self.feat("yield");
            self.yield_expr()
        } else {
            self.star_exprs()
        }
    }

    fn single_target(&mut self) {
        match self.s.n(5) {
            0 => {
                self.o("(");
                self.name();
                self.o(")");
            }
            _ => self.target(false),
        }
    }

    pub fn simple_stmt(&mut self) {
        self.fuel -= 1;
        match self.s.weighted(&[8, 10, 3, 3, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2]) {
            0 => self.star_exprs(),
            1 => {
                self.feat("assign");
                for _ in 0..1 + self.s.len(1, 4) / 2 {
                    self.star_targets();
                    self.o("=");
                }
                self.rhs();
            }
            2 => {
                self.feat("annassign");
                self.single_target();
                self.o(":");
                self.expr(L_EXPR);
                if self.s.coin() {
                    self.o("=");
                    self.rhs();
                }
            }
            3 => {
                self.feat("augassign");
                self.single_target();
                let op = *self
                    .s
                    .pick(&["+=", "-=", "*=", "@=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", "**=", "//="]);
                self.o(op);
                self.rhs();
            }
            4 => self.w("pass"),
            5 => {
                let k = *self.s.pick(&["break", "continue"]);
                self.w(k)
            }
            6 => {
                self.feat("return");
                self.w("return");
                if self.s.chance(2, 3) {
                    self.star_exprs();
                }
            }
            7 => {
                self.feat("raise");
                self.w("raise");
                if self.s.chance(2, 3) {
                    self.expr(L_EXPR);
                    if self.s.chance(1, 3) {
                        self.w("from");
                        self.expr(L_EXPR);
                    }
                }
            }
            8 => {
                self.feat("global");
                let k = *self.s.pick(&["global", "nonlocal"]);
                self.w(k);
                self.name();
                for _ in 0..self.s.len(1, 2) {
                    self.o(",");
                    self.name();
                }
            }
            9 => {
                self.feat("del");
                self.w("del");
                let n = 1 + self.s.len(1, 2);
                for i in 0..n {
                    if i > 0 {
                        self.o(",");
                    }
                    self.del_target();
                }
                if self.s.chance(1, 6) {
                    self.o(",");
                }
            }
            10 => {
                self.feat("assert");
                self.w("assert");
                self.expr(L_EXPR);
                if self.s.coin() {
                    self.o(",");
                    self.expr(L_EXPR);
                }
            }
            11 => self.import_name(),
            12 => self.import_from(),
            13 => {
                self.feat("type_alias");
                self.w("type");
                self.name();
                self.type_params();
                self.o("=");
                self.expr(L_EXPR);
            }
            14 => {
                self.feat("yield");
                self.yield_expr()
            }
            _ => {
                // soft keywords at the start of a statement
                self.feat("soft_kw_start");
                let k = *self.s.pick(&["match", "case", "type", "_", "print"]);
                self.w(k);
                match self.s.n(6) {
                    0 => {
                        self.o("=");
                        self.rhs()
                    }
                    1 => {
                        self.o("(");
                        self.call_args();
                        self.o(")");
                    }
                    2 => {
                        self.o("[");
                        self.slices();
                        self.o("]");
                    }
                    3 => {
                        self.o(".");
                        self.name();
                    }
                    4 => {
                        self.o(":");
                        self.expr(L_EXPR);
                    }
                    _ => {
                        let op = *self.s.pick(&["+", "-", "*", "<", "==", "@", "%"]);
                        self.o(op);
                        self.expr(L_BOR);
                    }
                }
            }
        }
    }

    fn dotted(&mut self) {
        self.name();
        for _ in 0..self.s.len(1, 3) / 2 {
            self.o(".");
            self.name();
        }
    }

    pub fn import_name(&mut self) {
        self.feat("import");
        self.w("import");
        let n = 1 + self.s.len(1, 4) / 2;
        for i in 0..n {
            if i > 0 {
                self.o(",");
            }
            self.dotted();
            if self.s.chance(1, 3) {
                self.w("as");
                self.name();
            }
        }
    }

    pub fn import_from(&mut self) {
        self.feat("import_from");
        self.w("from");
        let mut need = true;
        if self.s.chance(1, 2) {
            self.feat("relative_import");
            for _ in 0..1 + self.s.len(1, 5) {
                let d = *self.s.pick(&[".", ".", "..."]);
                self.o(d);
            }
            need = self.s.coin();
        }
        if need {
            self.dotted();
        }
        self.w("import");
        match self.s.n(5) {
            0 => self.o("*"),
            k => {
                let paren = k >= 3;
                if paren {
                    self.o("(");
                }
                let n = 1 + self.s.len(1, 3);
                for i in 0..n {
                    if i > 0 {
                        self.o(",");
                    }
                    self.name();
                    if self.s.chance(1, 3) {
                        self.w("as");
                        self.name();
                    }
                }
                if paren {
                    if self.s.chance(1, 3) {
                        self.o(",");
                    }
                    self.o(")");
                }
            }
        }
    }

    pub fn type_params(&mut self) {
        if !self.s.chance(1, 3) {
            return;
        }
        self.feat("type_params");
        self.o("[");
        let n = 1 + self.s.len(1, 2);
        for i in 0..n {
            if i > 0 {
                self.o(",");
            }
            match self.s.n(4) {
                0 | 1 => {
                    self.name();
                    if self.s.chance(1, 3) {
                        self.o(":");
                        self.expr(L_EXPR);
                    }
                }
                2 => {
                    self.o("*");
                    self.name();
                }
                _ => {
                    self.o("**");
                    self.name();
                }
            }
        }
        if self.s.chance(1, 6) {
            self.o(",");
        }
        self.o("]");
    }

    pub fn stmt(&mut self) {
        self.fuel -= 1;
        if self.low() {
            return self.simple_line();
        }
        match self.s.weighted(&[16, 4, 3, 3, 3, 3, 3, 5, 3, 2]) {
            0 => self.simple_line(),
            1 => {
                self.feat("if");
                self.w("if");
                self.expr(L_NAMED);
                self.o(":");
                self.block();
                for _ in 0..self.s.len(1, 3) / 2 {
                    self.feat("elif");
                    self.w("elif");
                    self.expr(L_NAMED);
                    self.o(":");
                    self.block();
                }
                self.maybe_else();
            }
            2 => {
                self.feat("while");
                self.w("while");
                self.expr(L_NAMED);
                self.o(":");
                self.block();
                self.maybe_else();
            }
            3 => {
                if self.s.chance(1, 5) {
                    self.feat("async_for");
                    self.w("async");
                }
                self.feat("for");
                self.w("for");
                self.star_targets();
                self.w("in");
                self.star_exprs();
                self.o(":");
                self.block();
                self.maybe_else();
            }
            4 => self.try_stmt(),
            5 => self.with_stmt(),
            6 => self.match_stmt(),
            7 => {
                self.decorators();
                self.func();
            }
            8 => {
                self.decorators();
                self.feat("class");
                self.w("class");
                self.name();
                self.type_params();
                if self.s.coin() {
                    self.o("(");
                    // a generator expression is not valid here
                    if self.s.chance(2, 3) {
                        self.base_args();
                    }
                    self.o(")");
                }
                self.o(":");
                self.block();
            }
            _ => {
                self.simple_line();
            }
        }
    }
    fn base_args(&mut self) {
        let n = 1 + self.s.len(1, 2);
        for i in 0..n {
            if i > 0 {
                self.o(",");
            }
            if i + 1 == n && self.s.coin() {
                self.name();
                self.o("=");
            }
            self.expr(L_EXPR);
        }
        if self.s.chance(1, 6) {
            self.o(",");
        }
    }
    fn decorators(&mut self) {
        for _ in 0..self.s.len(1, 3) / 2 {
            self.feat("decorator");
            self.o("@");
            self.expr(L_NAMED);
            self.nl();
        }
    }
    fn func(&mut self) {
        if self.s.chance(1, 4) {
            self.feat("async_def");
            self.w("async");
        }
        self.feat("def");
        self.w("def");
        self.name();
        self.type_params();
        self.o("(");
        self.params(false);
        self.o(")");
        if self.s.chance(1, 3) {
            self.feat("return_annotation");
            self.o("->");
            self.expr(L_EXPR);
        }
        self.o(":");
        self.block();
    }
    fn maybe_else(&mut self) {
        if self.s.chance(1, 3) {
            self.feat("else");
            self.w("else");
            self.o(":");
            self.block();
        }
    }
    fn try_stmt(&mut self) {
        self.feat("try");
        self.w("try");
        self.o(":");
        self.block();
        let star = self.s.chance(1, 4);
        let n = self.s.n(3);
        for i in 0..n {
            self.w("except");
            if star {
                self.feat("except_star");
                self.o("*");
            }
            if star || i + 1 < n || self.s.coin() {
                if self.s.coin() {
                    self.feat("except_as");
                    self.expr(L_EXPR);
                    self.w("as");
                    self.name();
                } else {
                    self.expr(L_EXPR);
                }
            }
            self.o(":");
            self.block();
        }
        if n > 0 {
            self.maybe_else();
        }
        if n == 0 || self.s.chance(1, 3) {
            self.feat("finally");
            self.w("finally");
            self.o(":");
            self.block();
        }
    }
    fn with_stmt(&mut self) {
        if self.s.chance(1, 5) {
            self.feat("async_with");
            self.w("async");
        }
        self.feat("with");
        self.w("with");
        let paren = self.s.chance(1, 3);
        if paren {
            self.feat("paren_with");
            self.o("(");
        }
        let n = 1 + self.s.len(1, 2);
        for i in 0..n {
            if i > 0 {
                self.o(",");
            }
            self.expr(L_EXPR);
            if self.s.coin() {
                self.w("as");
                self.target(true);
            }
        }
        if paren {
            if self.s.chance(1, 4) {
                self.o(",");
            }
            self.o(")");
        }
        self.o(":");
        self.block();
    }

    fn match_stmt(&mut self) {
        self.feat("match");
        self.w("match");
        if self.s.chance(1, 5) {
            self.star_named();
            self.o(",");
            if self.s.coin() {
                self.list_of(1, |g| g.star_named());
            }
        } else {
            self.expr(L_NAMED);
        }
        self.o(":");
        self.nl();
        self.out.push(tk(K::Ind, ""));
        let n = 1 + self.s.len(1, 2);
        for _ in 0..n {
            self.w("case");
            if self.s.chance(1, 5) {
                self.feat("open_sequence");
                self.seq_item();
                self.o(",");
                if self.s.coin() {
                    self.seq_item();
                    if self.s.chance(1, 4) {
                        self.o(",");
                    }
                }
            } else {
                self.pattern();
            }
            if self.s.chance(1, 4) {
                self.feat("guard");
                self.w("if");
                self.expr(L_NAMED);
            }
            self.o(":");
            self.block();
        }
        self.out.push(tk(K::Ded, ""));
    }
    fn seq_item(&mut self) {
        if self.s.chance(1, 4) {
            self.feat("star_pattern");
            self.o("*");
            self.name();
        } else {
            self.pattern()
        }
    }
    fn pattern(&mut self) {
        self.depth += 1;
        self.fuel -= 1;
        let n = if self.low() { 1 } else { 1 + self.s.len(1, 4) / 2 };
        for i in 0..n {
            if i > 0 {
                self.feat("or_pattern");
                self.o("|");
            }
            self.closed_pattern();
        }
        if self.s.chance(1, 6) {
            self.feat("as_pattern");
            self.w("as");
            self.cap_name();
        }
        self.depth -= 1;
    }
    fn signed_num(&mut self, complex: bool) {
        if self.s.chance(1, 3) {
            self.o("-");
        }
        let t = if complex {
            if self.s.coin() { self.decimal() } else { self.float() }
        } else {
            self.number_text()
        };
        self.out.push(tk(K::Num, t));
    }
    fn lit_pattern(&mut self) {
        match self.s.n(6) {
            0 => self.w("None"),
            1 => self.w("True"),
            2 => self.signed_num(false),
            3 => {
                self.feat("complex_pattern");
                self.signed_num(true);
                let o = *self.s.pick(&["+", "-"]);
                self.o(o);
                let t = self.imaginary_text();
                self.out.push(tk(K::Num, t));
            }
            _ => {
                // no f-strings in patterns
                let q = *self.s.pick(&["'", "\"", "'''"]);
                let p = *self.s.pick(&["", "b", "r"]);
                self.out.push(tk(K::Str, format!("{p}{q}s{q}")));
            }
        }
    }
    fn attr_name(&mut self) {
        self.name();
        self.o(".");
        self.name();
    }
    fn closed_pattern(&mut self) {
        let k = if self.low() { self.s.n(4) } else { self.s.n(9) };
        match k {
            0 => self.cap_name(),
            1 => self.w("_"),
            2 => self.lit_pattern(),
            3 => {
                self.feat("value_pattern");
                self.attr_name()
            }
            4 => {
                self.o("(");
                self.pattern();
                self.o(")");
            }
            5 | 6 => {
                self.feat("sequence_pattern");
                let br = self.s.coin();
                self.o(if br { "[" } else { "(" });
                let n = self.s.n(4);
                for i in 0..n {
                    if i > 0 {
                        self.o(",");
                    }
                    self.seq_item();
                }
                if (!br && n == 1) || (n > 0 && self.s.chance(1, 4)) {
                    self.o(",");
                }
                self.o(if br { "]" } else { ")" });
            }
            7 => {
                self.feat("mapping_pattern");
                self.o("{");
                let n = self.s.n(3);
                for i in 0..n {
                    if i > 0 {
                        self.o(",");
                    }
                    if self.s.chance(1, 4) {
                        self.attr_name();
                    } else {
                        self.lit_pattern();
                    }
                    self.o(":");
                    self.pattern();
                }
                let mut m = n;
                if self.s.chance(1, 3) {
                    if n > 0 {
                        self.o(",");
                    }
                    m += 1;
                    self.feat("double_star_pattern");
                    self.o("**");
                    self.cap_name();
                }
                if m > 0 && self.s.chance(1, 4) {
                    self.o(",");
                }
                self.o("}");
            }
            _ => {
                self.feat("class_pattern");
                if self.s.chance(1, 3) {
                    self.attr_name();
                } else {
                    self.name();
                }
                self.o("(");
                let n = self.s.n(3);
                let mut m = 0;
                for _ in 0..n {
                    if m > 0 {
                        self.o(",");
                    }
                    m += 1;
                    self.pattern();
                }
                for _ in 0..self.s.n(3) {
                    if m > 0 {
                        self.o(",");
                    }
                    m += 1;
                    self.feat("keyword_pattern");
                    self.name();
                    self.o("=");
                    self.pattern();
                }
                if m > 0 && self.s.chance(1, 5) {
                    self.o(",");
                }
                self.o(")");
            }
        }
    }
}

/// A body must not end in a way that merges with the closing quote.
fn fix_tail(mut b: String, q: &str) -> String {
    let c = q.chars().next().unwrap();
    // count trailing backslashes
    let bs = b.chars().rev().take_while(|x| *x == '\\').count();
    if bs % 2 == 1 {
        b.push('\\');
    }
    if b.ends_with(c) && q.len() == 3 {
        // an escaped quote is fine
        let before = b[..b.len() - 1].chars().rev().take_while(|x| *x == '\\').count();
        if before % 2 == 0 {
            b.push('.');
        }
    }
    if q.len() == 1 {
        // a bare newline is impossible, the continuation is fine
        let mut r = String::new();
        let mut esc = false;
        for ch in b.chars() {
            if ch == '\n' && !esc {
                continue;
            }
            esc = ch == '\\' && !esc;
            r.push(ch);
        }
        return r;
    }
    b
}
