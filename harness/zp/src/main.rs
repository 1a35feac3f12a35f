mod oracle;
mod proj;
mod t_cli;
mod t_conf;
mod t_edit;
mod t_incr;
mod t_types;
mod tgen;
use vpcore::{BASE, PropDef};

static PROPS: &[PropDef] = &[PropDef {
    id: "T01",
    rule: "Programs of up to 6 typed statements with nested blocks (functions, classes, generics, overloads, narrowing by if, while, match, try and assert, closures, comprehensions) in which everything is revealed, executed by CPython 3.12; non-trivial if no error is reported, the program ran and at least three reveal_type were reached.",
    assumptions: &["An int is accepted where a float is expected and True equals 1 (typing's rules), so programs with such values are not generated", "typeshed is pyright's copy"],
    quick: 16_000,
    thorough: 400_000,
    f: t_types::t01,
    text: Some(t_types::judge),
    ..BASE
}, PropDef {
    id: "T02",
    rule: "The programs of T01, which are well-typed by construction; non-trivial if at least three expressions are revealed.",
    assumptions: &["typeshed is pyright's copy"],
    quick: 30_000,
    thorough: 800_000,
    f: t_types::t02,
    text: Some(t_types::accepts),
    ..BASE
}, PropDef {
    id: "T03",
    rule: "The programs of T01 with one statement that has a type error by construction (22 kinds, from an assignment of a disjoint type to a wrong override) at the top, in a function, in a method or in a loop; non-trivial: every case.",
    assumptions: &["typeshed is pyright's copy"],
    quick: 30_000,
    thorough: 800_000,
    f: t_types::t03,
    text: Some(t_types::rejects),
    ..BASE
}, PropDef {
    id: "T04",
    rule: "Histories of up to 10 operations (edits of open files, closing, writing and deleting files and directories with the watcher's notification, recovery after a panic, asking for diagnostics of one or all files) over nine modules, two packages and a stub that import one another; non-trivial if something changed after diagnostics were asked for and something is reported.",
    assumptions: &["Every change on disk is notified", "typeshed is pyright's copy"],
    quick: 1_500,
    thorough: 60_000,
    f: t_incr::t04,
    ..BASE
}, PropDef {
    id: "T05",
    rule: "Texts of up to 14 pieces with all line endings and characters of one to four bytes, edited by up to 4 notifications of up to 4 ranged or full changes in UTF-8, UTF-16 or UTF-32 positions, with 4 % invalid ranges; non-trivial if something was edited.",
    assumptions: &["Positions within a CRLF or beyond the end of a line are not sent by clients"],
    quick: 250_000,
    thorough: 2_000_000,
    f: t_edit::t05,
    ..BASE
}, PropDef {
    id: "T06",
    rule: "Configurations of up to 5 options and 5 module sections with competing patterns in mypy.ini, setup.cfg and pyproject.toml and up to 3 options on the command line, in all spellings; the options of the project and of 41 modules are compared; non-trivial if something is configured.",
    assumptions: &["Options whose default changed in mypy 2 are not compared"],
    quick: 20_000,
    thorough: 400_000,
    f: t_conf::t06,
    ..BASE
}, PropDef {
    id: "T07",
    rule: "Projects of up to 12 files with up to 4 probes each (22 kinds of statements whose errors depend on single options), a configuration with module sections and excludes, inline configuration comments, .gitignore, options and paths on the command line; non-trivial if an error is expected.",
    assumptions: &["typeshed is pyright's copy"],
    quick: 2_500,
    thorough: 60_000,
    f: t_cli::t07,
    ..BASE
}];

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "check" {
        let code = std::fs::read_to_string(&a[3]).unwrap();
        let mode = if a[2] == "mypy" { config::Mode::Mypy } else { config::Mode::Default };
        print!("{}", proj::render(&t_types::check(mode, &code, true)));
        return;
    }
    vpcore::main_with(PROPS);
}
