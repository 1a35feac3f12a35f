mod dump;
mod model;
mod oracle;
mod p_edit;
mod p_lit;
mod p_parse;
mod p_query;
mod p_tree;
mod snippets;


use vpcore::{BASE, PropDef};

const REF: &str = "CPython 3.12 (python3 of this machine) is the reference; texts that it cannot judge are skipped";

static PROPS: &[PropDef] = &[
    PropDef {
        id: "P01",
        rule: "Texts: generated programs in random layouts, token- and character-level mutants of them, soups of fragments and of characters; a text is non-trivial if its tree has more than four leaves.",
        assumptions: &["Text whose recovery is exponentially slow (broken code within deeply nested brackets, a listed finding of P02) is cut"],
        quick: 500_000,
        thorough: 3_000_000,
        f: p_parse::p01,
        text: Some(p_parse::check_tiling),
        ..BASE
    },
    PropDef {
        id: "P03",
        rule: "Curated programs, every file of the standard library, and programs generated from the full Python 3.12 grammar in random layouts; non-trivial if CPython accepts the program, so that an error node would be wrong.",
        assumptions: &[REF],
        quick: 120_000,
        thorough: 3_000_000,
        f: p_parse::p03,
        fixed_count: p_parse::p03_fixed_count,
        fixed: p_parse::p03_fixed,
        text: Some(p_parse::p03_text),
        ..BASE
    },
    PropDef {
        id: "P04",
        rule: "The same programs as for P03; non-trivial if CPython accepts the program and both structures (kinds, fields and byte positions of statements, expressions, parameters, patterns) were compared completely.",
        assumptions: &[REF],
        quick: 100_000,
        thorough: 3_000_000,
        f: p_parse::p04,
        fixed_count: p_parse::p03_fixed_count,
        fixed: p_parse::p04_fixed,
        text: Some(p_parse::check_structure),
        ..BASE
    },
    PropDef {
        id: "P05",
        rule: "Generated programs with one token-level mutation; non-trivial if CPython's parser rejects the text for a reason of grammar, so that an error node is required.",
        assumptions: &[
            REF,
            "Not judged: what newer Python versions allow, tabs mixed with blanks, blanks after a line continuation that starts a line, and errors CPython reports after its grammar",
        ],
        quick: 250_000,
        thorough: 5_000_000,
        f: p_parse::p05,
        text: Some(p_parse::check_rejects),
        ..BASE
    },
    PropDef {
        id: "P02",
        rule: "Deeply nested valid expressions, patterns and targets in all statement positions, long repetitions of pieces of code, and all kinds of texts of P01, each parsed on a thread with a 2 MB stack; non-trivial if the tree has more than 20 nodes.",
        assumptions: &["Broken code within deeply nested brackets is left out (listed finding)", "A case counts as non-terminating if it takes more than 30 s twice; cases take milliseconds"],
        quick: 60_000,
        thorough: 2_000_000,
        f: p_tree::p02,
        text: Some(p_tree::p02_text),
        ..BASE
    },
    PropDef {
        id: "P06",
        rule: "One to four generated statements with a broken line (brackets and quotes balanced, no block opener) inserted before, between or after them; non-trivial if all other statements are error-free on their own and were found again, node for node, in the tree of the whole.",
        assumptions: &["Broken lines that can be the continuation of a compound statement are left out"],
        quick: 300_000,
        thorough: 2_000_000,
        f: p_tree::p06,
        ..BASE
    },
    PropDef {
        id: "P07",
        rule: "Generated programs in random layouts; non-trivial if CPython accepts the program and all its tokens (kinds and byte positions) were compared with the leaves of the tree.",
        assumptions: &[REF, "The literal parts of f-strings and the positions of indentation tokens are not compared"],
        quick: 60_000,
        thorough: 1_000_000,
        f: p_tree::p07,
        text: Some(p_tree::check_tokens),
        ..BASE
    },
    PropDef {
        id: "P08",
        rule: "A generated program in canonical and in random layout; non-trivial if CPython accepts both and the texts differ.",
        assumptions: &[REF],
        quick: 60_000,
        thorough: 1_000_000,
        f: p_tree::p08,
        ..BASE
    },
    PropDef {
        id: "P09",
        rule: "Two to five texts, parsed one by one, again in reverse order, and by four threads at the same time; every such set counts.",
        assumptions: &["Thread schedules are whatever the machine gives"],
        quick: 10_000,
        thorough: 300_000,
        f: p_tree::p09,
        ..BASE
    },
    PropDef {
        id: "P11",
        rule: "All kinds of texts of P01; every node and every position of each tree is checked against a model built from child lists; non-trivial if the tree has more than 15 nodes.",
        assumptions: &["Child iteration is the basis of the model (its consistency is P01)"],
        quick: 100_000,
        thorough: 500_000,
        f: p_tree::p11,
        ..BASE
    },
    PropDef {
        id: "C01",
        rule: "One to twelve string, bytes and number literals (all prefixes, quotes, escapes, line endings, concatenations, number formats); a literal is non-trivial if CPython accepts it and its value was compared.",
        assumptions: &[REF, "Lone surrogates cannot be represented and are not compared"],
        quick: 200_000,
        thorough: 3_000_000,
        f: p_lit::c01,
        text: Some(p_lit::c01_text),
        ..BASE
    },
    PropDef {
        id: "C03",
        rule: "An indented text to dedent, and a module of nested classes and functions with docstrings (quotes, concatenation, indentation, line endings) and near misses; non-trivial for each docstring of CPython whose value and cleaned form were compared.",
        assumptions: &[REF, "Docstrings in parentheses are not generated; lines of blanks only have to stay blank"],
        quick: 100_000,
        thorough: 2_000_000,
        f: p_lit::c03,
        text: Some(p_lit::check_docs),
        ..BASE
    },
    PropDef {
        id: "C05",
        rule: "All kinds of texts of P01, all cursor positions (a window of 200 in longer texts); non-trivial if the tree has more than 15 nodes.",
        assumptions: &[],
        quick: 60_000,
        thorough: 500_000,
        f: p_query::c05,
        text: Some(p_query::c05_text),
        ..BASE
    },
    PropDef {
        id: "C04",
        rule: "One to four statements over several lines (all line endings), with comments in all places, of which the ones that silence errors are known by construction; all regions between tokens, the start of the file, inline configuration, and the addition of error codes; non-trivial if there is such a comment.",
        assumptions: &["Strings contain no #", "Files with \\r only are not judged for inline configuration"],
        quick: 150_000,
        thorough: 5_000_000,
        f: p_edit::c04,
        ..BASE
    },
    PropDef {
        id: "C06",
        rule: "Generated programs and all kinds of texts of P01, up to 150 cursor positions each; non-trivial if the text has more than 20 bytes.",
        assumptions: &[REF],
        quick: 40_000,
        thorough: 1_000_000,
        f: p_edit::c06,
        text: Some(p_edit::c06_text),
        ..BASE
    },
    PropDef {
        id: "C07",
        rule: "Generated programs in random layouts; non-trivial if CPython accepts the program, all its names were compared, and there are more than five.",
        assumptions: &[REF],
        quick: 60_000,
        thorough: 2_000_000,
        f: p_edit::c07,
        text: Some(p_edit::check_binds),
        ..BASE
    },
    PropDef {
        id: "C08",
        rule: "Generated modules that start with a docstring and imports, in random layouts; an import is added after the first imports, and a name to every from-import; non-trivial if CPython accepts the module and the edited programs were compared.",
        assumptions: &[REF],
        quick: 60_000,
        thorough: 2_000_000,
        f: p_edit::c08,
        text: Some(p_edit::check_imports),
        ..BASE
    },
    PropDef {
        id: "C09",
        rule: "Generated programs in random layouts; every operator of every program is checked; non-trivial if there is one.",
        assumptions: &["The methods of each operator are found by running it in CPython with objects that record the calls"],
        quick: 200_000,
        thorough: 3_000_000,
        f: p_edit::c09,
        text: Some(p_edit::check_operators),
        ..BASE
    },
    PropDef {
        id: "C10",
        rule: "Generated programs in random layouts, cursor positions in all of the text (a window of 200 in longer texts) and in every name; non-trivial if CPython accepts the program and it has a call and three names whose role was compared.",
        assumptions: &[REF, "Programs with f-strings are not judged"],
        quick: 60_000,
        thorough: 2_000_000,
        f: p_query::c10,
        text: Some(p_query::c10_text),
        ..BASE
    },
];

fn main() {
    // Debugging aid: run a text-level check on a file.
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 4 && a[1] == "text" {
        let text = std::fs::read_to_string(&a[3]).unwrap();
        let mut ctx = vpcore::Ctx::default();
        let r = match a[2].as_str() {
            "tiling" => p_parse::check_tiling(&text, &mut ctx),
            "accepts" => p_parse::check_accepts(&text, &mut ctx),
            "queries" => p_query::c05_text(&text, &mut ctx),
            "structure" => p_parse::check_structure(&text, &mut ctx),
            "dump" => {
                print!("{}", model::dump_tree(&parsa_python::parse(text.into())));
                Ok(())
            }
            _ => panic!("unknown check"),
        };
        println!("{r:?}");
        std::process::exit(r.is_err() as i32);
    }
    vpcore::main_with(PROPS);
}
