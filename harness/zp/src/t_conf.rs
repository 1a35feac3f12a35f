//! T06: every module gets the options that mypy gives it for the same configuration.
use crate::oracle::ask;
use config::{DiagnosticConfig, Mode, ModeChoice, TypeCheckerFlags, find_config};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::sync::Arc;
use vfs::{DirOrFile, Directory, SimpleLocalFS, Vfs, VfsHandler, WorkspaceKind, WorkspacesBuilder};
use vpcore::*;

/// Options of single modules: mypy's name, the inverse names.
pub const FLAGS: &[(&str, &[&str])] = &[
    ("strict_optional", &["no_strict_optional"]),
    ("strict_equality", &["no_strict_equality"]),
    ("implicit_optional", &["no_implicit_optional"]),
    ("check_untyped_defs", &["no_check_untyped_defs"]),
    ("ignore_missing_imports", &["no_ignore_missing_imports"]),
    ("follow_untyped_imports", &["no_follow_untyped_imports"]),
    ("disallow_untyped_defs", &["allow_untyped_defs", "no_disallow_untyped_defs"]),
    ("disallow_untyped_calls", &["allow_untyped_calls"]),
    ("disallow_untyped_decorators", &["allow_untyped_decorators"]),
    ("disallow_any_generics", &["allow_any_generics"]),
    ("disallow_any_decorated", &["allow_any_decorated"]),
    ("disallow_any_explicit", &["allow_any_explicit"]),
    ("disallow_any_unimported", &["allow_any_unimported"]),
    ("disallow_any_expr", &["allow_any_expr"]),
    ("disallow_subclassing_any", &["allow_subclassing_any", "no_disallow_subclassing_any"]),
    ("disallow_incomplete_defs", &["allow_incomplete_defs"]),
    ("allow_untyped_globals", &["disallow_untyped_globals", "no_allow_untyped_globals"]),
    ("allow_redefinition", &["disallow_redefinition"]),
    ("warn_unreachable", &["no_warn_unreachable"]),
    ("warn_return_any", &["no_warn_return_any"]),
    ("warn_no_return", &["no_warn_no_return"]),
    ("implicit_reexport", &["no_implicit_reexport"]),
    ("extra_checks", &["no_extra_checks"]),
    ("ignore_errors", &["no_ignore_errors"]),
];
const BASE_KEYS: &[&str] = &["warn_redundant_casts", "always_true", "always_false", "enable_error_code", "disable_error_code", "python_version", "platform", "exclude", "pretty", "show_column_numbers", "hide_error_codes", "show_error_end", "error_summary", "explicit_package_bases", "exclude_gitignore"];
const CODES: &[&str] = &["attr-defined", "misc", "arg-type", "deprecated", "override"];

pub fn get(f: &TypeCheckerFlags, k: &str) -> bool {
    match k {
        "strict_optional" => f.strict_optional,
        "strict_equality" => f.strict_equality,
        "implicit_optional" => f.implicit_optional,
        "check_untyped_defs" => f.check_untyped_defs,
        "ignore_missing_imports" => f.ignore_missing_imports,
        "follow_untyped_imports" => f.follow_untyped_imports,
        "disallow_untyped_defs" => f.disallow_untyped_defs,
        "disallow_untyped_calls" => f.disallow_untyped_calls,
        "disallow_untyped_decorators" => f.disallow_untyped_decorators,
        "disallow_any_generics" => f.disallow_any_generics,
        "disallow_any_decorated" => f.disallow_any_decorated,
        "disallow_any_explicit" => f.disallow_any_explicit,
        "disallow_any_unimported" => f.disallow_any_unimported,
        "disallow_any_expr" => f.disallow_any_expr,
        "disallow_subclassing_any" => f.disallow_subclassing_any,
        "disallow_incomplete_defs" => f.disallow_incomplete_defs,
        "allow_untyped_globals" => f.allow_untyped_globals,
        "allow_redefinition" => f.allow_redefinition,
        "warn_unreachable" => f.warn_unreachable,
        "warn_return_any" => f.warn_return_any,
        "warn_no_return" => f.warn_no_return,
        "warn_redundant_casts" => f.warn_redundant_casts,
        "implicit_reexport" => !f.no_implicit_reexport,
        "extra_checks" => f.extra_checks,
        "ignore_errors" => f.ignore_errors.is_some(),
        _ => unreachable!("{k}"),
    }
}

pub struct World {
    pub root: std::path::PathBuf,
}
impl World {
    pub fn new() -> World {
        use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
        static N: AtomicU64 = AtomicU64::new(0);
        let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        let root = std::path::PathBuf::from(format!("{base}/vpzc-{}-{}", std::process::id(), N.fetch_add(1, SeqCst)));
        std::fs::create_dir_all(&root).unwrap();
        World { root }
    }
    pub fn at(&self, f: &str) -> String {
        format!("{}/{f}", self.root.display())
    }
}
impl Drop for World {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.root);
    }
}

#[derive(Debug, PartialEq)]
struct NoFile;
impl vfs::VfsFile for NoFile {
    type Artifacts = ();
    fn code(&self) -> &str {
        ""
    }
    fn into_recoverable_artifacts(self) {}
    fn invalidate_references_to(&mut self, _: Option<vfs::FileIndex>) {}
}

const NAMES: [&str; 3] = ["a", "b", "foo_bar"];

/// Directories for all packages of up to three parts.
struct Tree {
    v: Vfs<NoFile>,
    w: World,
}
impl Tree {
    fn new() -> Tree {
        let w = World::new();
        for a in NAMES {
            for b in NAMES {
                for c in NAMES {
                    std::fs::create_dir_all(w.at(&format!("{a}/{b}/{c}"))).unwrap();
                }
            }
        }
        let h: Box<dyn VfsHandler> = Box::new(SimpleLocalFS::without_watcher());
        let mut b = WorkspacesBuilder::new(&*h);
        b.add(h.normalize_unchecked_abs_path(w.root.to_str().unwrap()), WorkspaceKind::TypeChecking);
        let ws = b.into();
        Tree { v: Vfs::new(h, ws), w }
    }
    fn dir(&self, parts: &[&str]) -> Option<Arc<Directory>> {
        if parts.is_empty() {
            return None;
        }
        let p = vfs::PathWithScheme::with_file_scheme(self.v.handler.normalize_unchecked_abs_path(&self.w.at(&parts.join("/"))));
        match self.v.search_path(true, &p) {
            Some(DirOrFile::Dir(d)) => Some(d),
            _ => panic!("no directory {parts:?}"),
        }
    }
}
thread_local! {
    static TREE: Tree = Tree::new();
}

fn pattern(s: &mut Src) -> String {
    let n = s.range(1, 3);
    let mut v: Vec<&str> = (0..n).map(|_| *s.pick(&NAMES)).collect();
    match s.n(6) {
        0 => (),
        1 => {
            let i = s.n(v.len());
            v[i] = "*";
        }
        2 => {
            v.push("*");
            v.push(*s.pick(&NAMES));
        }
        3 => v.insert(0, "*"),
        _ => v.push("*"),
    }
    if v == ["*"] {
        // mypy takes it for a name
        v.push("*");
        v.push("a");
    }
    v.join(".")
}

pub fn bool_of(s: &mut Src, toml: bool, b: bool) -> String {
    if toml {
        b.to_string()
    } else if b {
        s.pick(&["True", "true", "1", "yes", "on", "TRUE", "On"]).to_string()
    } else {
        s.pick(&["False", "false", "0", "no", "off", "FALSE", "No"]).to_string()
    }
}

/// One flag, in any of its spellings.
pub fn flag(s: &mut Src) -> (&'static str, &'static str) {
    let (k, inverse) = *s.pick(FLAGS);
    (k, if s.coin() { k } else { *s.pick(inverse) })
}

fn strings(s: &mut Src, pool: &[&str], toml: bool, ini_sep: &str) -> String {
    let n = s.range(1, 3);
    let v: Vec<&str> = (0..n).map(|_| *s.pick(pool)).collect();
    if toml {
        format!("[{}]", v.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join(", "))
    } else {
        let sep = if s.coin() { ini_sep } else { *s.pick(&[",", ", ", " , ", ",\n    ", " ,\n  "]) };
        let end = *s.pick(&["", "", ",", " ,"]);
        format!("{}{}{end}", if s.chance(1, 6) { "\n    " } else { "" }, v.join(sep))
    }
}

fn line(s: &mut Src, out: &mut String, toml: bool, k: &str, v: &str) {
    if s.chance(1, 8) {
        out.push_str(s.pick(&["# a comment\n", "\n", "# strict_optional = False\n"]));
    }
    if !toml && s.chance(1, 10) {
        out.push_str("; disallow_any_expr = True\n");
    }
    let eq = if toml { *s.pick(&[" = ", "=", "  =  "]) } else { *s.pick(&[" = ", "=", ": ", ":", "  =  "]) };
    out.push_str(&format!("{k}{eq}{v}"));
    if s.chance(1, 10) {
        out.push_str(if toml { " # a comment" } else { "  " });
    }
    out.push('\n');
}

pub fn t06(s: &mut Src, ctx: &mut Ctx) -> R {
    let toml = s.coin();
    let name = if toml { "pyproject.toml" } else { *s.pick(&["mypy.ini", "setup.cfg", "x.ini", ".mypy.ini"]) };
    let mut text = String::new();
    if s.chance(1, 3) {
        text.push_str(if toml { "[project]\nname = \"x\"\n\n[tool.black]\nline-length = 3\n" } else { "[metadata]\nname = x\nstrict = true\n" });
    }
    text.push_str(if toml { "[tool.mypy]\n" } else { "[mypy]\n" });
    let mut used = std::collections::BTreeSet::new();
    for _ in 0..s.n(6) {
        match s.n(14) {
            0 => {
                if used.insert("strict") {
                    let b = s.coin();
                    let v = bool_of(s, toml, b);
                    line(s, &mut text, toml, "strict", &v);
                }
            }
            1 => {
                let k = *s.pick(&["always_true", "always_false"]);
                if used.insert(k) {
                    let v = strings(s, &["X", "_y1", "DEBUG"], toml, if k == "always_true" { ", " } else { "," });
                    line(s, &mut text, toml, k, &v);
                }
            }
            2 => {
                let k = *s.pick(&["enable_error_code", "disable_error_code"]);
                if used.insert(k) {
                    let v = strings(s, CODES, toml, ", ");
                    line(s, &mut text, toml, k, &v);
                }
            }
            3 => {
                if used.insert("python_version") {
                    let v = *s.pick(&["3.10", "3.11", "3.12", "3.13", "3.14"]);
                    let v = if toml { format!("{v:?}") } else { v.to_string() };
                    line(s, &mut text, toml, "python_version", &v);
                }
            }
            4 => {
                if used.insert("platform") {
                    let v = *s.pick(&["win32", "darwin", "linux"]);
                    let v = if toml { format!("{v:?}") } else { v.to_string() };
                    line(s, &mut text, toml, "platform", &v);
                }
            }
            5 => {
                if used.insert("exclude") {
                    if toml && s.coin() {
                        let v = strings(s, &["^a/", "b\\.py$", "c|d"], true, "");
                        line(s, &mut text, toml, "exclude", &v);
                    } else {
                        let v = if toml { "'^a/.*\\.py$'" } else { "^a/.*\\.py$" };
                        line(s, &mut text, toml, "exclude", v);
                    }
                }
            }
            6 | 7 => {
                let k = *s.pick(&["pretty", "show_column_numbers", "show_error_codes", "show_error_end", "no_error_summary", "explicit_package_bases", "exclude_gitignore"]);
                if used.insert(k) {
                    let b = s.coin();
                    let v = bool_of(s, toml, b);
                    line(s, &mut text, toml, k, &v);
                }
            }
            _ => {
                let (k, spelled) = flag(s);
                if used.insert(k) {
                    let b = s.coin();
                    let v = bool_of(s, toml, b);
                    line(s, &mut text, toml, spelled, &v);
                }
            }
        }
    }
    let mut patterns = std::collections::BTreeSet::new();
    let mut sections = 0;
    for _ in 0..s.n(6) {
        let mut here = vec![];
        for _ in 0..s.weighted(&[6, 2, 1]) + 1 {
            let p = pattern(s);
            if patterns.insert(p.clone()) {
                here.push(p);
            }
        }
        if here.is_empty() {
            continue;
        }
        sections += 1;
        if s.chance(1, 3) {
            text.push('\n');
        }
        if toml {
            text.push_str("[[tool.mypy.overrides]]\n");
            if here.len() == 1 && s.coin() {
                text.push_str(&format!("module = {:?}\n", here[0]));
            } else {
                text.push_str(&format!("module = {here:?}\n"));
            }
        } else {
            text.push_str(&format!("[mypy-{}]\n", here.join(",")));
        }
        let mut used = std::collections::BTreeSet::new();
        for _ in 0..s.range(1, 3) {
            // Few options, so that sections compete
            let (k, inverse) = if s.chance(3, 4) { *s.pick(&FLAGS[..4]) } else { *s.pick(FLAGS) };
            let spelled = if s.coin() { k } else { *s.pick(inverse) };
            if used.insert(k) {
                let b = s.coin();
                let v = bool_of(s, toml, b);
                line(s, &mut text, toml, spelled, &v);
            }
        }
    }
    // The command line
    let mut args = vec![];
    let mut cli_used = std::collections::BTreeSet::new();
    for _ in 0..s.weighted(&[3, 2, 1, 1]) {
        match s.n(9) {
            0 => {
                // (--strict also sets allow_untyped_globals, on purpose; mypy has no such rule)
                if !used.contains("allow_untyped_globals") && cli_used.insert("s") {
                    args.push("--strict".to_string())
                }
            }
            1 => args.extend([s.pick(&["--always-true", "--always-false"]).to_string(), s.pick(&["X", "Z"]).to_string()]),
            2 => args.extend([s.pick(&["--enable-error-code", "--disable-error-code"]).to_string(), s.pick(CODES).to_string()]),
            3 => {
                if cli_used.insert("v") {
                    args.extend(["--python-version".to_string(), s.pick(&["3.10", "3.13"]).to_string()])
                }
            }
            4 => {
                if cli_used.insert("p") {
                    args.extend(["--platform".to_string(), s.pick(&["win32", "linux"]).to_string()])
                }
            }
            5 => {
                let (a, b) = *s.pick(&[("--show-column-numbers", "--hide-column-numbers"), ("--show-error-codes", "--hide-error-codes"), ("--show-error-end", "--hide-error-end"), ("--pretty", "--no-pretty"), ("--no-error-summary", "--error-summary"), ("--warn-redundant-casts", "--no-warn-redundant-casts")]);
                if cli_used.insert(a) {
                    args.push(if s.coin() { a } else { b }.to_string());
                }
            }
            _ => {
                let (k, inverse) = *s.pick(FLAGS);
                if ["ignore_errors"].contains(&k) || !cli_used.insert(k) {
                    continue;
                }
                let spelled = if s.coin() || inverse[0].ends_with("_imports") { k } else { inverse[0] };
                args.push(format!("--{}", spelled.replace('_', "-")));
            }
        }
    }
    judge(toml, name, &text, &args, ctx)?;
    if sections > 0 || !args.is_empty() || !used.is_empty() {
        ctx.nontrivial(&text);
    }
    ctx.count("sections", sections);
    Ok(())
}

fn modules() -> Vec<Vec<&'static str>> {
    let mut v = vec![];
    for a in NAMES {
        v.push(vec![a]);
        for b in NAMES {
            v.push(vec![a, b]);
            for c in NAMES {
                v.push(vec![a, b, c]);
            }
        }
    }
    v.push(vec!["a", "b", "a", "foo_bar"]);
    v.push(vec!["foo_bar", "a", "b", "b"]);
    v
}

fn judge(_toml: bool, name: &str, text: &str, args: &[String], ctx: &mut Ctx) -> R {
    ctx.note("configuration", format!("{name} with {args:?}:\n{text}"));
    let w = World::new();
    let file = w.at(name);
    std::fs::write(&file, text).unwrap();
    let mut all = vec!["--config-file".to_string(), file.clone()];
    all.extend(args.iter().cloned());
    let mods = modules();
    let keys: Vec<&str> = FLAGS.iter().map(|x| x.0).collect();
    let q = json!({"args": all, "keys": keys, "base": BASE_KEYS, "modules": mods.iter().map(|m| m.join(".")).collect::<Vec<_>>()});
    let Some(want) = ask("mypy", &q) else { return Ok(()) };
    if want.get("error").is_some() {
        ctx.class("refused by mypy");
        if std::env::var("VP_SHOW").is_ok() {
            println!("{} {}", want["error"], text);
        }
        return Ok(());
    }
    if want["messages"].as_str() != Some("") {
        ctx.class("warned by mypy");
        if std::env::var("VP_SHOW").is_ok() {
            println!("{} {}", want["messages"], text);
        }
    }
    let fs = SimpleLocalFS::without_watcher();
    let cwd = fs.unchecked_abs_path(w.root.to_str().unwrap());
    let found = find_config(&fs, cwd.clone(), Some(std::path::Path::new(&file)), ModeChoice::Explicit(Mode::Mypy), |_| ());
    let mut found = match found {
        Ok(f) => f,
        Err(e) => fail!("refused", "{name} is refused: {e}\n{text}"),
    };
    let mut options = found.project_options;
    use clap::Parser as _;
    let cli = match cli_args::MypyCli::try_parse_from(std::iter::once("zmypy".to_string()).chain(all.iter().cloned())) {
        Ok(c) => c,
        Err(e) => fail!("arguments", "the arguments {args:?} are refused: {e}"),
    };
    cli_args::apply_flags(&fs, &mut options, &mut found.diagnostic_config, cwd, cli_args::Cli::new_mypy_compatible(cli), found.most_probable_base, found.config_path.as_deref());
    let show = |what: &str, k: &str, got: &Value, want: &Value| format!("{what}: {k} is {got} instead of {want} for {name} with {args:?}:\n{text}");
    // The options of the whole project
    let base = &want["base"];
    for k in keys.iter().chain(["warn_redundant_casts"].iter()) {
        let got = json!(get(&options.flags, k));
        ensure!(got == base[*k], format!("base-{k}"), "{}", show("the project", k, &got, &base[*k]));
    }
    let d: &DiagnosticConfig = &found.diagnostic_config;
    let f = &options.flags;
    let se = &options.settings;
    let lists: BTreeMap<&str, Value> = [
        ("always_true", json!(f.always_true_symbols)),
        ("always_false", json!(f.always_false_symbols)),
        ("enable_error_code", json!(f.enabled_error_codes)),
        ("disable_error_code", json!(f.disabled_error_codes)),
        ("exclude", json!(f.excludes.iter().map(|e| e.regex_str.as_str()).collect::<Vec<_>>())),
        ("platform", json!(se.computed_platform())),
        ("pretty", json!(d.pretty)),
        // (the end implies columns)
        ("show_column_numbers", json!(d.show_column_numbers || d.show_error_end)),
        ("hide_error_codes", json!(!d.show_error_codes)),
        ("show_error_end", json!(d.show_error_end)),
        ("error_summary", json!(d.error_summary)),
        ("explicit_package_bases", json!(se.explicit_package_bases)),
        ("exclude_gitignore", json!(se.exclude_gitignore)),
    ]
    .into_iter()
    .collect();
    for (k, got) in &lists {
        ensure!(*got == base[*k], format!("base-{k}"), "{}", show("the project", k, got, &base[*k]));
    }
    if let Some(v) = se.python_version {
        let got = json!([v.major, v.minor]);
        ensure!(got == base["python_version"], "base-python_version", "{}", show("the project", "python_version", &got, &base["python_version"]));
    }
    // The options of modules
    TREE.with(|t| -> R {
        for m in &mods {
            let dir = t.dir(&m[..m.len() - 1]);
            let mut f = options.flags.clone();
            let mut n = 0;
            for o in &options.overrides {
                if o.module.matches_file_path(m[m.len() - 1], dir.as_deref()) {
                    n += 1;
                    if let Err(e) = o.apply_to_flags(&mut f) {
                        fail!("override", "{e}\n{text}");
                    }
                }
            }
            ctx.count("matches", n);
            if n > 1 {
                ctx.class("several sections");
            }
            let m = m.join(".");
            let want = &want["modules"][&m];
            for k in &keys {
                let got = json!(get(&f, k));
                ensure!(got == want[*k], format!("module"), "{}", show(&format!("module {m}"), k, &got, &want[*k]));
            }
        }
        Ok(())
    })
}
