//! T07: the command line reports exactly the errors that the configuration asks for, in the selected files.
use crate::oracle::ask;
use crate::proj::TYPESHED;
use crate::t_conf::{FLAGS, World, bool_of};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use vfs::{SimpleLocalFS, VfsHandler};
use vpcore::*;

/// A statement, and for some of its lines the code of the error and when it is reported.
struct Probe {
    text: &'static str,
    errors: &'static [(usize, &'static str, fn(&O) -> bool)],
}
pub struct O<'a> {
    flags: &'a Value,
    base: &'a Value,
}
impl O<'_> {
    fn on(&self, k: &str) -> bool {
        self.flags[k].as_bool().unwrap_or_else(|| panic!("{k}"))
    }
    fn version(&self) -> (u64, u64) {
        (self.base["python_version"][0].as_u64().unwrap(), self.base["python_version"][1].as_u64().unwrap())
    }
    fn platform(&self) -> &str {
        self.base["platform"].as_str().unwrap()
    }
    fn has(&self, k: &str, name: &str) -> bool {
        self.base[k].as_array().unwrap().iter().any(|x| x == name)
    }
}

const HEAD: &str = "import sys\nfrom typing import Any, cast\nfrom prelude_vp import an_any, untyped, X, Y\n";
const PROBES: &[Probe] = &[
    Probe { text: "1()\n", errors: &[(0, "operator", |_| true)] },
    Probe { text: "[].nothing\n", errors: &[(0, "attr-defined", |_| true)] },
    Probe { text: "def p2§(x): pass\n", errors: &[(0, "no-untyped-def", |o| o.on("disallow_untyped_defs"))] },
    Probe { text: "def p3§(x: int, y) -> None: pass\n", errors: &[(0, "no-untyped-def", |o| o.on("disallow_untyped_defs") || o.on("disallow_incomplete_defs"))] },
    Probe { text: "p4§: list = []\n", errors: &[(0, "type-arg", |o| o.on("disallow_any_generics"))] },
    Probe { text: "p5§: Any = 1\n", errors: &[(0, "explicit-any", |o| o.on("disallow_any_explicit"))] },
    Probe { text: "p6§: int = None\n", errors: &[(0, "assignment", |o| o.on("strict_optional"))] },
    Probe { text: "def p7§(x: int = None) -> None: ...\n", errors: &[(0, "assignment", |o| o.on("strict_optional") && !o.on("implicit_optional"))] },
    Probe { text: "def p8§():\n    1 + ''\n", errors: &[(0, "no-untyped-def", |o| o.on("disallow_untyped_defs")), (1, "operator", |o| o.on("check_untyped_defs"))] },
    Probe { text: "def p9§() -> int:\n    return an_any\n", errors: &[(1, "no-any-return", |o| o.on("warn_return_any"))] },
    Probe { text: "def p10§() -> int:\n    if sys.argv:\n        return 1\n", errors: &[(0, "return", |o| o.on("warn_no_return")), (0, "return-value", |o| !o.on("warn_no_return") && o.on("strict_optional"))] },
    Probe { text: "sys.argv == 1\n", errors: &[(0, "comparison-overlap", |o| o.on("strict_equality"))] },
    Probe { text: "def p12§() -> None:\n    return\n    1()\n", errors: &[(2, "unreachable", |o| o.on("warn_unreachable"))] },
    Probe { text: "class P13§(an_any): ...\n", errors: &[(0, "misc", |o| o.on("disallow_subclassing_any"))] },
    Probe { text: "def p14§() -> None:\n    untyped(1)\n", errors: &[(1, "no-untyped-call", |o| o.on("disallow_untyped_calls"))] },
    Probe { text: "import missing§\n", errors: &[(0, "import-not-found", |o| !o.on("ignore_missing_imports"))] },
    Probe { text: "p17§ = []\n", errors: &[(0, "var-annotated", |o| !o.on("allow_untyped_globals"))] },
    Probe { text: "if sys.version_info >= (3, 12):\n    1()\nelse:\n    [].nothing\n", errors: &[(1, "operator", |o| o.version() >= (3, 12)), (3, "attr-defined", |o| o.version() < (3, 12))] },
    Probe { text: "if sys.platform == 'win32':\n    1()\nelse:\n    [].nothing\n", errors: &[(1, "operator", |o| o.platform() == "win32"), (3, "attr-defined", |o| o.platform() != "win32")] },
    Probe { text: "if not X:\n    1()\n", errors: &[(1, "operator", |o| !o.has("always_true", "X"))] },
    Probe { text: "if Y:\n    1()\n", errors: &[(1, "operator", |o| !o.has("always_false", "Y"))] },
    Probe { text: "reveal_type(1)\n", errors: &[] },
    Probe { text: "é𝒳§ = 1()\n", errors: &[(0, "operator", |_| true)] },
    Probe { text: "cast(int, 1)\n", errors: &[(0, "redundant-cast", |o| o.base["warn_redundant_casts"] == true)] },
];
const FLAG_NAMES: &[usize] = &[0, 1, 2, 3, 4, 6, 7, 9, 11, 14, 15, 16, 18, 19, 20, 23];
const CODES: &[&str] = &["operator", "attr-defined", "assignment", "no-untyped-def", "misc", "return", "import-not-found"];

const FILES: &[&str] = &["a.py", "b.py", "pkg/__init__.py", "pkg/a.py", "pkg/b.pyi", "pkg/sub/__init__.py", "pkg/sub/c.py", "other/__init__.py", "other/a.py", "tests/__init__.py", "tests/test_a.py", "stubbed.pyi"];

fn module(f: &str) -> String {
    let m = f.trim_end_matches('i').trim_end_matches(".py").replace('/', ".");
    m.strip_suffix(".__init__").unwrap_or(&m).to_string()
}

struct File {
    text: String,
    inline: Option<String>,
    inline_disabled: Vec<String>,
    probes: Vec<(usize, usize)>, // probe, first line
}

fn flag_line(s: &mut Src) -> (&'static str, &'static str, bool) {
    let (k, inverse) = FLAGS[*s.pick(FLAG_NAMES)];
    (k, if s.coin() { k } else { *s.pick(inverse) }, s.chance(2, 3))
}

/// What an exclude means
#[derive(Clone)]
enum Ex {
    Prefix(&'static str),
    Suffix(&'static str),
    Part(&'static str),
}
const EXCLUDES: &[(&str, Ex)] = &[
    ("^pkg/sub", Ex::Prefix("pkg/sub")),
    ("^tests", Ex::Prefix("tests")),
    ("a\\.py$", Ex::Suffix("a.py")),
    ("\\.pyi$", Ex::Suffix(".pyi")),
    ("test_", Ex::Part("test_")),
    ("other/", Ex::Part("other/")),
    ("^b\\.py$|^nothing", Ex::Suffix("\0b.py")),
];
impl Ex {
    fn matches(&self, p: &str) -> bool {
        match self {
            Ex::Prefix(x) => p.starts_with(x),
            Ex::Suffix("\0b.py") => p == "b.py",
            Ex::Suffix(x) => p.ends_with(x),
            Ex::Part(x) => p.contains(x),
        }
    }
}

const GLOBS: &[&str] = &["pkg/*", "*.py", "**/a.py", "*/a.py", "pkg/**/*.py", "t*", "[ab].py", "p?g", "*/sub", "**/*.pyi", "nothing*"];
fn is_glob(p: &str) -> bool {
    p.contains(['*', '?', '['])
}
fn glob_matches(g: &[&str], p: &[&str]) -> bool {
    fn part(g: &[u8], p: &[u8]) -> bool {
        match g {
            [] => p.is_empty(),
            [b'*', r @ ..] => (0..=p.len()).any(|i| part(r, &p[i..])),
            [b'?', r @ ..] => !p.is_empty() && part(r, &p[1..]),
            [b'[', a, b, b']', r @ ..] => !p.is_empty() && (p[0] == *a || p[0] == *b) && part(r, &p[1..]),
            [c, r @ ..] => p.first() == Some(c) && part(r, &p[1..]),
        }
    }
    match g {
        [] => p.is_empty(),
        ["**", r @ ..] => (0..=p.len()).any(|i| glob_matches(r, &p[i..])),
        [x, r @ ..] => !p.is_empty() && part(x.as_bytes(), p[0].as_bytes()) && glob_matches(r, &p[1..]),
    }
}

/// A section makes single modules strict
fn strict_section(s: &mut Src, ctx: &mut Ctx) -> R {
    use clap::Parser as _;
    let w = World::new();
    let toml = s.coin();
    let on = s.chance(3, 4);
    let exception = s.coin();
    let mut text = String::from(if toml { "[tool.mypy]\n[[tool.mypy.overrides]]\nmodule = \"a\"\n" } else { "[mypy]\n[mypy-a]\n" });
    let mut lines = vec![format!("strict = {}\n", bool_of(s, toml, on))];
    if exception {
        lines.push(format!("disallow_untyped_defs = {}\n", bool_of(s, toml, false)));
        lines.push(format!("disallow_incomplete_defs = {}\n", bool_of(s, toml, false)));
        let n = s.n(3);
        lines.swap(0, n);
    }
    text.push_str(&lines.concat());
    ctx.note("strict section", text.clone());
    std::fs::write(w.at(if toml { "pyproject.toml" } else { "mypy.ini" }), &text).unwrap();
    for f in ["a.py", "b.py"] {
        std::fs::write(w.at(f), "def f(x) -> None: pass\nx: list = []\n").unwrap();
    }
    let cli = cli_args::MypyCli::try_parse_from(["zmypy"]).unwrap();
    let fs = SimpleLocalFS::without_watcher();
    let root = w.root.to_str().unwrap().to_string();
    let r = zmypy::with_diagnostics_from_cli(cli_args::Cli::new_mypy_compatible(cli), &root, Some(fs.normalize_unchecked_abs_path(TYPESHED)), |d, c| {
        d.issues.iter().map(|x| x.as_string(c, Some(&root)).split(' ').next().unwrap().to_string()).collect::<BTreeSet<_>>()
    });
    let got = match r {
        Ok(x) => x,
        Err(e) => fail!("strict-failed", "it fails: {e}\n{text}"),
    };
    let want: BTreeSet<String> = [("a.py:1:", on && !exception), ("a.py:2:", on)].iter().filter(|x| x.1).map(|x| x.0.to_string()).collect();
    ensure!(got == want, "strict-section", "{got:?} instead of {want:?}\n{text}");
    ctx.class("strict sections");
    ctx.nontrivial(&text);
    Ok(())
}

/// Whatever a configuration comment contains, the file is checked.
fn comments(s: &mut Src, ctx: &mut Ctx) -> R {
    use clap::Parser as _;
    let w = World::new();
    let mut text = String::new();
    let mut n = 0;
    for _ in 0..s.range(1, 3) {
        text.push_str("# mypy:");
        for _ in 0..s.range(1, 9) {
            text.push_str(*s.pick(&["\"", "\"", "=", "=", ",", " ", "é", "𝒳", "a", "strict-optional", "disable-error-code", "misc", "\"misc, b\"", "True", "\u{a0}", "\t", "enable_error_code", "always-true", "mypy:", "#", "-", "[", "python_version"]));
        }
        text.push('\n');
        n += 1;
    }
    text.push_str("1()\n");
    if s.chance(1, 10) {
        return strict_section(s, ctx);
    }
    ctx.note("comments", text.clone());
    std::fs::write(w.at("a.py"), &text).unwrap();
    std::fs::write(w.at("mypy.ini"), "[mypy]\n").unwrap();
    let cli = cli_args::MypyCli::try_parse_from(["zmypy", "a.py"]).unwrap();
    let fs = SimpleLocalFS::without_watcher();
    let root = w.root.to_str().unwrap().to_string();
    let r = zmypy::with_diagnostics_from_cli(cli_args::Cli::new_mypy_compatible(cli), &root, Some(fs.normalize_unchecked_abs_path(TYPESHED)), |d, c| {
        d.issues.iter().map(|x| x.as_string(c, Some(&root))).collect::<Vec<_>>()
    });
    let lines = match r {
        Ok(x) => x,
        Err(e) => fail!("comment-failed", "it fails: {e}\n{text}"),
    };
    let start = format!("a.py:{}: error:", n + 1);
    ensure!(lines.iter().filter(|l| l.starts_with(&start) && l.ends_with("[operator]")).count() == 1, "comment-error", "the error after the comments is not reported: {lines:?}\n{text}");
    ctx.class("comments");
    ctx.nontrivial(&text);
    Ok(())
}

pub fn t07(s: &mut Src, ctx: &mut Ctx) -> R {
    if s.chance(1, 6) {
        return comments(s, ctx);
    }
    let w = World::new();
    let mut files: BTreeMap<&str, File> = BTreeMap::new();
    for f in FILES {
        let package = f.ends_with("__init__.py");
        if !package && !s.chance(1, 2) || package && !s.chance(1, 1) {
            continue;
        }
        let stub = f.ends_with(".pyi");
        let mut text = String::new();
        let mut inline = None;
        let mut inline_disabled = vec![];
        if s.chance(1, 5) {
            let mut d = vec![];
            let mut used = BTreeSet::new();
            for _ in 0..s.range(1, 3) {
                if s.chance(1, 5) {
                    if used.insert("disable") {
                        let n = s.range(1, 2);
                        let c: Vec<&str> = (0..n).map(|_| *s.pick(CODES)).collect();
                        inline_disabled.extend(c.iter().map(|x| x.to_string()));
                        d.push(if n == 1 && s.coin() { format!("disable-error-code={}", c[0]) } else { format!("disable-error-code=\"{}\"", c.join(", ")) });
                    }
                    continue;
                }
                let (k, spelled, b) = flag_line(s);
                if !used.insert(k) {
                    continue;
                }
                let spelled = if s.coin() { spelled.replace('_', "-") } else { spelled.to_string() };
                d.push(if b && s.coin() {
                    spelled
                } else {
                    let v = bool_of(s, false, b);
                    format!("{spelled}{}{v}", s.pick(&["=", " = "]))
                });
            }
            let t = d.join(*s.pick(&[", ", ","]));
            text.push_str(&format!("# mypy: {t}\n"));
            inline = Some(t);
        }
        let mut probes = vec![];
        if package && s.chance(1, 2) {
            // empty
        } else {
            text.push_str(HEAD);
            if s.chance(1, 3) {
                let g = *s.pick(FILES);
                let m = module(g);
                if !m.contains("stubbed") && g.ends_with("__init__.py") && *f != g {
                    text.push_str(&format!("import {m}\n"));
                }
            }
            for _ in 0..s.range(1, 4) {
                let i = s.n(PROBES.len());
                // Stubs contain no statements, functions in them have no bodies
                if stub && ![2, 3, 4, 5, 13].contains(&i) {
                    continue;
                }
                probes.push((i, text.matches('\n').count() + 1));
                text.push_str(&PROBES[i].text.replace('§', &format!("_{}", probes.len())));
            }
        }
        files.insert(f, File { text, inline, inline_disabled, probes });
    }
    for (f, x) in &files {
        let p = w.at(f);
        std::fs::create_dir_all(std::path::Path::new(&p).parent().unwrap()).unwrap();
        std::fs::write(&p, &x.text).unwrap();
        // What is covered by a stub is not checked
        if f.ends_with(".pyi") && s.coin() {
            std::fs::write(p.trim_end_matches('i'), "1()\n").unwrap();
        }
    }
    std::fs::write(w.at("notes.txt"), "1()\n").unwrap();
    std::fs::write(w.at("prelude_vp.py"), "from typing import Any\n1()\nan_any: Any = 1\ndef untyped(x): pass\nX = int()\nY = int()\n").unwrap();
    // The configuration
    let toml = s.coin();
    let name = if toml { "pyproject.toml" } else { *s.pick(&["mypy.ini", "setup.cfg"]) };
    let mut text = String::from(if toml { "[tool.mypy]\nexclude = ['^prelude_vp'" } else { "[mypy]\n" });
    let mut excludes = vec![Ex::Prefix("prelude_vp")];
    let mut args: Vec<String> = vec![];
    if toml {
        for _ in 0..s.weighted(&[3, 1, 1]) {
            let (r, e) = s.pick(EXCLUDES);
            excludes.push(e.clone());
            text.push_str(&format!(", '{r}'"));
        }
        text.push_str("]\n");
    } else if s.chance(1, 3) {
        let (r, e) = s.pick(EXCLUDES);
        excludes.push(e.clone());
        text.push_str(&format!("exclude = ^prelude_vp|{r}\n"));
    } else {
        text.push_str("exclude = ^prelude_vp\n");
    }
    let mut used = BTreeSet::new();
    for _ in 0..s.n(5) {
        match s.n(10) {
            0 => {
                if used.insert("strict") {
                    text.push_str(if toml { "strict = true\n" } else { "strict = True\n" });
                }
            }
            1 => {
                let k = *s.pick(&["enable_error_code", "disable_error_code"]);
                if used.insert(k) {
                    let c = *s.pick(CODES);
                    text.push_str(&if toml { format!("{k} = [\"{c}\"]\n") } else { format!("{k} = {c}\n") });
                }
            }
            2 => {
                let (k, v) = *s.pick(&[("python_version", "3.11"), ("python_version", "3.12"), ("platform", "win32"), ("always_true", "X"), ("always_false", "Y")]);
                if used.insert(k) {
                    text.push_str(&if toml { format!("{k} = \"{v}\"\n") } else { format!("{k} = {v}\n") });
                }
            }
            3 => {
                let k = *s.pick(&["show_column_numbers", "show_error_codes", "exclude_gitignore", "exclude_gitignore", "pretty"]);
                if used.insert(k) {
                    let b = s.coin();
                    text.push_str(&format!("{k} = {}\n", bool_of(s, toml, b)));
                }
            }
            _ => {
                let (k, spelled, b) = flag_line(s);
                if used.insert(k) {
                    text.push_str(&format!("{spelled} = {}\n", bool_of(s, toml, b)));
                }
            }
        }
    }
    // The paths to check, of the command line or the configuration
    let mut chosen: Vec<String> = vec![];
    let mut in_config = false;
    if s.chance(1, 2) {
        let mut pool: Vec<&str> = files.keys().copied().collect();
        pool.extend(["pkg", "pkg/sub", "other", "tests", "."]);
        for _ in 0..s.range(1, 2) {
            chosen.push(if s.chance(1, 3) { s.pick(GLOBS).to_string() } else { s.pick(&pool).to_string() });
        }
        in_config = s.chance(1, 3);
        if in_config {
            let list = chosen.join(*s.pick(&[",", ", "]));
            text.push_str(&match (toml, s.coin()) {
                (true, true) => format!("files = {chosen:?}\n"),
                (true, false) => format!("files = \"{list}\"\n"),
                _ => format!("files = {list}\n"),
            });
        }
    }
    let mut patterns = BTreeSet::new();
    for _ in 0..s.n(4) {
        let p = *s.pick(&["a", "b", "pkg.*", "pkg.sub.*", "pkg.a", "*.a", "pkg", "tests.*", "other.a", "pkg.*.c"]);
        if !patterns.insert(p) {
            continue;
        }
        text.push_str(&if toml { format!("[[tool.mypy.overrides]]\nmodule = \"{p}\"\n") } else { format!("[mypy-{p}]\n") });
        let mut used = BTreeSet::new();
        for _ in 0..s.range(1, 3) {
            let (k, spelled, b) = flag_line(s);
            if used.insert(k) {
                text.push_str(&format!("{spelled} = {}\n", bool_of(s, toml, b)));
            }
        }
    }
    std::fs::write(w.at(name), &text).unwrap();
    let mut trace = format!("{name}:\n{text}\n");
    // The command line
    let mut ignored: Option<&str> = None;
    let mut ignored_below: Option<&str> = None;
    if s.chance(1, 4) {
        ignored = Some(*s.pick(&["other", "c.py", "tests", "a.py"]));
        std::fs::write(w.at(".gitignore"), format!("{}\n", ignored.unwrap())).unwrap();
        trace += &format!(".gitignore: {}\n", ignored.unwrap());
        if s.coin() {
            // One that matches nothing, or only something below it
            let t = *s.pick(&["nothing", "c.py", "b.pyi"]);
            ignored_below = Some(t);
            std::fs::write(w.at("pkg/.gitignore"), format!("{t}\n")).unwrap();
            trace += &format!("pkg/.gitignore: {t}\n");
        }
    }
    for _ in 0..s.weighted(&[3, 2, 1]) {
        match s.n(6) {
            0 => {
                let (r, e) = s.pick(EXCLUDES);
                excludes.push(e.clone());
                args.extend(["--exclude".into(), r.to_string()]);
            }
            1 => args.extend([s.pick(&["--enable-error-code", "--disable-error-code"]).to_string(), s.pick(CODES).to_string()]),
            2 => {
                let x = *s.pick(&["--warn-redundant-casts", "--show-column-numbers", "--hide-error-codes", "--show-error-end", "--pretty", "--exclude-gitignore", "--exclude-gitignore"]);
                if !args.iter().any(|a| a == x) {
                    args.push(x.into());
                }
            }
            _ => {
                let (k, inverse) = FLAGS[*s.pick(FLAG_NAMES)];
                if k != "ignore_errors" && !args.iter().any(|a| a.ends_with(&k[3..].replace('_', "-"))) {
                    let x = if s.coin() || inverse[0].ends_with("_imports") || inverse[0].starts_with("allow_any_") { k } else { inverse[0] };
                    args.push(format!("--{}", x.replace('_', "-")));
                }
            }
        }
    }
    let mut paths = vec![];
    for c in chosen.iter().filter(|_| !in_config) {
        paths.push(match s.n(3) {
            0 => c.clone(),
            1 if !is_glob(c) => format!("./{c}"),
            _ => w.at(c),
        });
    }
    trace += &format!("arguments {args:?} {chosen:?}\n");
    for (f, x) in &files {
        trace += &format!("---- {f}\n{}", x.text);
    }
    ctx.note("project", trace.clone());

    // What mypy's options are
    // without the files, as mypy is asked about no file
    std::fs::create_dir(w.at("vp_oracle")).unwrap();
    let for_mypy = w.at(&format!("vp_oracle/{name}"));
    std::fs::write(&for_mypy, text.lines().filter(|l| !l.starts_with("files = ")).map(|l| format!("{l}\n")).collect::<String>()).unwrap();
    let mut all = vec!["--config-file".to_string(), for_mypy];
    all.extend(args.iter().cloned());
    let keys: Vec<&str> = FLAGS.iter().map(|x| x.0).collect();
    let q = json!({
        "args": all, "keys": keys,
        "base": ["warn_redundant_casts", "always_true", "always_false", "enable_error_code", "disable_error_code", "python_version", "platform", "show_column_numbers", "hide_error_codes", "show_error_end", "exclude_gitignore"],
        "modules": files.keys().map(|f| module(f)).collect::<Vec<_>>(),
        "inline": files.iter().filter_map(|(f, x)| Some((module(f), json!(x.inline.as_ref()?)))).collect::<serde_json::Map<_, _>>(),
    });
    let Some(conf) = ask("mypy", &q) else { return Ok(()) };
    std::fs::remove_dir_all(w.at("vp_oracle")).unwrap();
    ensure!(conf.get("error").is_none(), "harness-config", "mypy refuses the configuration: {conf}\n{trace}");
    let base = &conf["base"];
    let gitignore = base["exclude_gitignore"] == true && ignored.is_some();
    if gitignore && !chosen.is_empty() {
        ctx.class("not judged");
        return Ok(());
    }
    // Which files are checked
    let skipped = |f: &str, below: &str| -> bool {
        // the file and the directories between it and what was asked for
        let mut ends: Vec<usize> = f.match_indices('/').map(|x| x.0).filter(|&i| i > below.len() || below.is_empty()).collect();
        ends.push(f.len());
        ends.iter().any(|&e| excludes.iter().any(|x| x.matches(&f[..e]))) || gitignore && (f.split('/').any(|c| c == ignored.unwrap()) || f.strip_prefix("pkg/").is_some_and(|r| r.split('/').any(|c| Some(c) == ignored_below)))
    };
    let mut selected: BTreeSet<&str> = BTreeSet::new();
    let mut nothing = false;
    if chosen.is_empty() {
        selected.extend(files.keys().copied().filter(|f| !skipped(f, "")));
        nothing = selected.is_empty();
    }
    let globs: Vec<&String> = chosen.iter().filter(|c| is_glob(c)).collect();
    if !globs.is_empty() {
        let mut n = 0;
        for f in files.keys() {
            // Everything below a matching directory
            let mut ends: Vec<usize> = f.match_indices('/').map(|x| x.0).collect();
            ends.push(f.len());
            let found = ends.iter().any(|&e| globs.iter().any(|g| glob_matches(&g.split('/').collect::<Vec<_>>(), &f[..e].split('/').collect::<Vec<_>>())) && !skipped(f, f[..e].rsplit_once('/').map_or("", |x| x.0)));
            if found {
                n += 1;
                selected.insert(*f);
            }
        }
        nothing |= n == 0;
        ctx.class("globs");
    }
    for c in chosen.iter().filter(|c| !is_glob(c)) {
        let n: Vec<&str> = files.keys().copied().filter(|f| f == c || (c == "." || f.starts_with(&format!("{c}/"))) && !skipped(f, if c == "." { "" } else { c })).collect();
        nothing |= n.is_empty();
        selected.extend(n);
    }
    // The expected errors
    let mut want: Vec<(String, usize, String)> = vec![];
    let list = |k: &str| -> BTreeSet<String> { base[k].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect() };
    let (enabled, disabled) = (list("enable_error_code"), list("disable_error_code"));
    for f in &selected {
        let x = &files[f];
        let m = module(f);
        let flags = if x.inline.is_some() { &conf["inline"][&m][0] } else { &conf["modules"][&m] };
        if x.inline.is_some() {
            ensure!(conf["inline"][&m][1] == json!([]), "harness-inline", "mypy refuses the comment: {}\n{trace}", conf["inline"][&m]);
        }
        if flags["ignore_errors"] == true {
            ctx.class("ignored");
            continue;
        }
        let o = O { flags, base };
        for (i, line) in &x.probes {
            for (l, code, when) in PROBES[*i].errors {
                let off = !enabled.contains(*code) && (disabled.contains(*code) || x.inline_disabled.iter().any(|c| c == code));
                if when(&o) && !off {
                    want.push((f.to_string(), line + l, code.to_string()));
                } else {
                    ctx.class("silent");
                }
            }
        }
    }
    want.sort();
    // What is reported
    use clap::Parser as _;
    let mut argv = vec!["zmypy".to_string()];
    if s.coin() || name == "setup.cfg" {
        argv.extend(["--config-file".to_string(), if s.coin() { name.to_string() } else { w.at(name) }]);
    }
    argv.extend(args.iter().cloned());
    argv.extend(paths);
    let cli = match cli_args::MypyCli::try_parse_from(&argv) {
        Ok(c) => c,
        Err(e) => fail!("arguments", "{argv:?} is refused: {e}"),
    };
    let fs = SimpleLocalFS::without_watcher();
    let root = w.root.to_str().unwrap().to_string();
    let r = zmypy::with_diagnostics_from_cli(cli_args::Cli::new_mypy_compatible(cli), &root, Some(fs.normalize_unchecked_abs_path(TYPESHED)), |d, c| {
        (d.issues.iter().map(|x| (x.as_string(c, Some(&root)), x.mypy_error_code().to_string())).collect::<Vec<_>>(), d.error_count(), d.summary())
    });
    let (lines, count, summary) = match r {
        Ok(x) => x,
        Err(e) => {
            ensure!(nothing, "failed", "it fails: {e}\n{trace}");
            ctx.class("nothing to check");
            return Ok(());
        }
    };
    ensure!(!nothing, "nothing", "nothing is selected, but it checks: {lines:?}\n{trace}");
    let mut got = vec![];
    for (l, code) in &lines {
        let l = l.lines().next().unwrap_or("");
        // file:line[:column[:line:column]]: kind: message  [code]
        let mut it = l.splitn(2, ": ");
        let place: Vec<&str> = it.next().unwrap().split(':').collect();
        let rest = it.next().unwrap_or("");
        if rest.starts_with("note: ") {
            continue;
        }
        let wanted = if base["show_error_end"] == true { 5 } else if base["show_column_numbers"] == true { 3 } else { 2 };
        ensure!(place.len() == wanted && rest.starts_with("error: "), "format", "{l:?} has not the form that was asked for\n{trace}");
        ensure!(rest.ends_with(&format!("  [{code}]")) == (base["hide_error_codes"] == false), "format-code", "{l:?} has not the form that was asked for\n{trace}");
        // The column is one of characters
        if place.len() > 2
            && code == "operator"
            && let Some(line) = files.get(place[0]).and_then(|f| f.text.lines().nth(place[1].parse::<usize>().unwrap_or(0).wrapping_sub(1)))
            && let Some(at) = line.find("1()")
        {
            let column = line[..at].chars().count() + 1;
            ensure!(place[2] == column.to_string(), "column", "{l:?}, but the column is {column}\n{trace}");
        }
        got.push((place[0].to_string(), place[1].parse::<usize>().unwrap_or(0), code.clone()));
    }
    got.sort();
    if got != want {
        let missing: Vec<_> = want.iter().filter(|x| !got.contains(x)).collect();
        let extra: Vec<_> = got.iter().filter(|x| !want.contains(x)).collect();
        fail!(format!("errors{}", missing.first().map(|x| format!("-missing-{}", x.2)).or_else(|| extra.first().map(|x| format!("-extra-{}", x.2))).unwrap_or_default()), "missing {missing:?}, not expected {extra:?}\n{}\n{trace}", lines.iter().map(|x| x.0.as_str()).collect::<Vec<_>>().join("\n"));
    }
    ensure!(count == want.len(), "count", "{count} errors instead of {}\n{trace}", want.len());
    let n = selected.len();
    let nf = want.iter().map(|x| &x.0).collect::<BTreeSet<_>>().len();
    let p = |n: usize, w: &str| format!("{n} {w}{}", if n == 1 { "" } else { "s" });
    let ws = if want.is_empty() { format!("Success: no issues found in {}", p(n, "source file")) } else { format!("Found {} in {} (checked {})", p(want.len(), "error"), p(nf, "file"), p(n, "source file")) };
    ensure!(summary == ws, "summary", "{summary:?} instead of {ws:?}\n{trace}");
    ctx.count("errors", want.len() as u64);
    if !want.is_empty() {
        ctx.nontrivial(&trace);
    }
    Ok(())
}
