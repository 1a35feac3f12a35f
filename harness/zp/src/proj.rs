use config::{DiagnosticConfig, Mode, ProjectOptions, PythonVersion};
use std::sync::Arc;
use vfs::{LocalFS, NormalizedPath, PathWithScheme, VfsHandler};
use zuban_python::{Project, RunCause};

pub const TYPESHED: &str = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/pyright/dist/dist/typeshed-fallback";

pub fn options(mode: Mode, root: &str) -> ProjectOptions {
    let fs = LocalFS::without_watcher();
    let mut o = ProjectOptions::default_for_mode(mode);
    o.settings.typeshed_path = Some(fs.normalize_unchecked_abs_path(TYPESHED));
    o.settings.add_global_packages_default = false;
    o.settings.python_version = Some(PythonVersion::new(3, 12));
    // Without it None belongs to all types within functions without annotations, on purpose.
    o.flags.untyped_strict_optional = true;
    o.settings.mypy_path = vec![fs.normalize_unchecked_abs_path(root)];
    o
}

pub fn project(o: ProjectOptions) -> Project {
    Project::new(Box::new(LocalFS::without_watcher()), o, RunCause::LanguageServer)
}

pub fn path(p: &Project, s: &str) -> PathWithScheme {
    PathWithScheme::with_file_scheme(norm(p, s))
}
pub fn norm(p: &Project, s: &str) -> Arc<NormalizedPath> {
    p.vfs_handler().normalize_unchecked_abs_path(s)
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Diag {
    pub line: usize,
    pub col: usize,
    pub end_line: usize,
    pub end_col: usize,
    pub code: String,
    pub text: String,
    pub kind: String,
}

pub fn diags(p: &mut Project, path: &PathWithScheme) -> Option<Vec<Diag>> {
    let mut d = p.document(path)?;
    let c = DiagnosticConfig::default();
    let mut v: Vec<Diag> = d
        .diagnostics()
        .iter()
        .map(|x| {
            let s = x.start_position();
            let e = x.end_position();
            Diag {
                line: s.line_one_based(),
                col: s.code_points_column(),
                end_line: e.line_one_based(),
                end_col: e.code_points_column(),
                code: x.mypy_error_code().to_string(),
                text: x.message(),
                kind: x.as_string(&c, None).split(": ").nth(1).unwrap_or("").to_string(),
            }
        })
        .collect();
    v.sort();
    Some(v)
}

pub fn render(v: &[Diag]) -> String {
    v.iter().map(|d| format!("{}:{}-{}:{}: {}: {} [{}]\n", d.line, d.col, d.end_line, d.end_col, d.kind, d.text, d.code)).collect()
}
