PARSER = "crates/parsa_python/src/lib.rs"
TOK = "crates/parsa_python/src/tokenizer.rs"
PARSA = "crates/parsa/src/lib.rs"
GRAMMAR = "crates/parsa/src/grammar.rs"
AUTO = "crates/parsa/src/automaton.rs"
CST = "crates/parsa_python_cst/src/lib.rs"
REFNOTE = "Exploration: no counterexample among the generated cases. CPython 3.12 is the trusted reference."

prop("P01", "Parsing loses nothing: the leaves of a tree tile the source text",
 "For every text, valid Python or not, parsing returns a tree whose leaves, in order, together with only blanks, comments, line joinings and a byte order mark between them, are exactly the text (with its last line terminated). Leaves never overlap and lie on character boundaries, every inner node spans exactly its children, and every stored node is reachable from the root once.",
 ["inputs"], "all UTF-8 texts: programs, broken programs, and garbage",
 "The tests parse some dozens of fixed snippets and compare a few trees; loss of text happens in rare combinations of backtracking, error recovery and multibyte characters.",
 [GRAMMAR, PARSA, TOK, "crates/parsa/src/backtracking.rs"],
 [("error recovery and backtracking rewrite the node list in place", GRAMMAR), ("positions and prefixes of leaves", PARSA), ("token positions", TOK)],
 "property-based testing: generated and mutated texts, invariant over the tree", "Exploration: no counterexample among the generated texts. The invariant is complete (positions, order, spans, reachability).",
 ["parsa_python::parse", "PyTree::nodes", "PyNode::{start,end,as_code,prefix_to_previous_leaf}"])
prop("P03", "Every program that CPython accepts parses without error nodes",
 "A source text that CPython 3.12 parses is parsed to a tree without error recovery nodes, error tokens and broken blocks, in whatever layout (line joinings, comments, blank lines, line endings, indentation) it is written.",
 ["programs"], "all syntactically valid Python 3.12 programs",
 "Tests contain a fixed list of programs; the grammar has an unbounded language and the tokenizer is hand-written, f-strings and soft keywords in particular.",
 [PARSER, TOK, GRAMMAR, AUTO], [("grammar", PARSER), ("tokenizer", TOK), ("automaton construction", AUTO)],
 "differential property-based testing against CPython", REFNOTE, ["parsa_python::parse"])
prop("P04", "The typed syntax tree has the structure and positions of CPython's AST",
 "For every program that CPython 3.12 accepts, the typed syntax tree yields the same statements, expressions, parameters, arguments, patterns, targets and operators, nested in the same way and at the same byte positions, as CPython's ast module.",
 ["programs"], "all syntactically valid Python 3.12 programs",
 "Tests check a few accessors on a few snippets; a wrong precedence, a swapped field or a dropped element appears only in particular constructs.",
 [PARSER, CST, GRAMMAR], [("grammar and precedence", PARSER), ("typed accessors (unpack, iter_...)", CST)],
 "differential property-based testing against CPython's ast", REFNOTE, ["parsa_python_cst::Tree::parse and the accessors of its nodes"])
prop("P05", "Programs that are not Python are marked with error nodes",
 "A source text that CPython 3.12 rejects for a reason of grammar is parsed to a tree with at least one error recovery node, so that a syntax error can be reported.",
 ["inputs"], "all texts outside of Python's grammar, in particular programs with one token changed, removed, added or moved",
 "Tests contain a handful of broken programs; a grammar that takes too much is silent on all others.",
 [PARSER, TOK, GRAMMAR], [("grammar", PARSER), ("error recovery", GRAMMAR), ("tokenizer", TOK)],
 "differential property-based testing against CPython on mutated programs", REFNOTE, ["parsa_python::parse"])
prop("P02", "Parsing always ends, without a crash, on any text",
 "For every text, however broken, deeply nested or long, the parser returns a tree: it does not panic, does not run out of a normal thread's stack on nesting that people write, and does not take time out of all proportion to the size of the text.",
 ["inputs"], "all UTF-8 texts, including deep nesting and long repetition",
 "Tests parse short snippets; panics in recovery and blow-ups need nesting, repetition or rare mutations.",
 [GRAMMAR, "crates/parsa/src/backtracking.rs", TOK, PARSER], [("backtracking and error recovery", GRAMMAR), ("replaying of tokens", "crates/parsa/src/backtracking.rs")],
 "fuzzing with nested, repeated and mutated texts in watched worker processes", "Exploration. Non-termination is judged by a 30 s limit on cases that take milliseconds.",
 ["parsa_python::parse"])
prop("P06", "Error recovery is local: intact statements around an error keep their tree",
 "When a broken line (with balanced brackets and quotes, opening no block) stands between intact statements, the intact statements have, node for node, the tree that they have without the broken line, and the error nodes are confined to the broken line.",
 ["programs"], "all sequences of valid statements with a broken line at any place between them",
 "Tests show recovery on a few snippets; users type broken lines into arbitrary programs and expect everything else to keep working.",
 [GRAMMAR, PARSER, TOK], [("error recovery", GRAMMAR)],
 "metamorphic property-based testing: insert a broken line", "Exploration: no counterexample among the generated cases.",
 ["parsa_python::parse"])
prop("P07", "The tokenizer splits programs like CPython",
 "For every program that CPython 3.12 accepts, the leaves of the tree are CPython's tokens: same kinds (names and keywords, numbers, strings, f-string parts, operators, newlines, indents, dedents) in the same order at the same byte positions.",
 ["programs"], "all syntactically valid Python 3.12 programs in all layouts",
 "The unit tests tokenize a few dozen strings; numbers, string prefixes, f-strings, line joining and indentation combine without bound.",
 [TOK], [("hand-written tokenizer", TOK)],
 "differential property-based testing against CPython's tokenize", REFNOTE, ["parsa_python::parse", "PyNode::{type_,start,end}"])
prop("P08", "Layout does not change meaning",
 "Two texts of the same program that differ only in layout (blanks, comments, blank lines, line joining, line endings, indentation width) have the same tree up to positions.",
 ["programs"], "all pairs of layouts of all valid programs",
 "A relation between two inputs, which example-based tests do not state.",
 [TOK, GRAMMAR], [("prefixes and indentation in the tokenizer", TOK)],
 "metamorphic property-based testing: re-render the same tokens", "Exploration: no counterexample among the generated pairs.", ["parsa_python::parse"])
prop("P09", "Parsing is a function of the text alone",
 "Parsing the same text always gives the same tree: whatever was parsed before, in whatever order, and while other threads are parsing.",
 ["inputs", "schedules"], "all sets of texts and all interleavings of parsing them",
 "Tests parse one text at a time in a fresh process; shared state of the lazily built grammar would only show in sequences or under concurrency.",
 [PARSA, GRAMMAR, PARSER], [("lazily initialized global grammar and keyword tables", PARSER)],
 "property-based testing: repeat, reorder, and parallel parsing against a sequential run", "Exploration: schedules are those the machine produced.", ["parsa_python::parse"])
prop("P11", "Tree navigation agrees with the tree",
 "On every tree, looking for a leaf by position, going to the next, previous, first and last leaf, to parent and siblings, to the n-th child, searching for node types, and asking for text, prefix and suffix give what the nested child lists of the tree say, for every node and every byte position.",
 ["inputs"], "all texts, all nodes of their trees and all byte positions",
 "Tests look up a few positions in a few texts; off-by-one errors concern zero-length leaves, ends of text and multibyte characters.",
 [PARSA], [("flat node list with lengths and parent search", PARSA)],
 "property-based testing against a model tree", "Exploration: each generated tree is checked completely.", ["PyNode::{leaf_by_position,next_leaf,previous_leaf,parent,nth_child,search,...}"])
prop("C01", "String, bytes and number literals have the value CPython gives them",
 "For every literal that CPython 3.12 accepts, its value according to the typed tree (string and bytes contents after prefixes, quotes, escapes, line endings and implicit concatenation; integers of any size and base) is CPython's, the reported content range is exactly the text between the quotes, and no literal, valid or not, makes the decoding crash.",
 ["inputs"], "all string, bytes and number literals",
 "A handful of escapes is tested; prefixes, quotes, escapes, multibyte characters, line endings and concatenation multiply.",
 [CST], [("StringLiteral::as_python_string, BytesLiteral::content_as_bytes, Int::parse", CST)],
 "differential property-based testing against CPython's eval", REFNOTE, ["AtomContent::{Strings,Bytes,Int,Float,Complex}"])
prop("C03", "Docstrings are found and cleaned like in CPython",
 "For every module, class and function, the docstring is there exactly when CPython sees one, with the same value, and its cleaned form is that of inspect.cleandoc; removing the common indentation of a text agrees with textwrap.dedent and never loses anything but whitespace at line starts.",
 ["programs"], "all programs with docstrings, all texts to dedent",
 "Hover texts are tested on few examples; indentation, blank lines, quoting and multibyte whitespace combine freely.",
 [CST, "crates/utils/src/lib.rs"], [("docstring and clean_docstring", CST), ("dedent", "crates/utils/src/lib.rs")],
 "differential property-based testing against CPython's ast.get_docstring and textwrap", REFNOTE, ["File::docstring, Name::clean_docstring, utils::dedent"])
prop("C05", "Editor queries are answered at every position of every text",
 "For every text, complete or broken, and every cursor position, going to a definition, completion, signature help, inlay hints, folding, scope lookup and name listing return without a crash; a name that touches the cursor is the one reported, all names are listed in order, the text before the cursor that is to be completed is what stands there, and definition ranges contain the name.",
 ["inputs"], "all texts and all cursor positions in them",
 "Tests place a cursor in a few dozen snippets; users have it anywhere, mostly in broken code.",
 [CST, PARSA], [("goto_node, completion_node, signature_node", CST), ("filter_all_names, potential_inlay_hints", CST)],
 "fuzzing of positions in generated, mutated and garbage texts against invariants", "Exploration: no counterexample among the generated texts.", ["Tree::{goto_node,completion_node,signature_node,filter_all_names,potential_inlay_hints,node_parent_scope}"])
ACT = "crates/parsa_python_cst/src/code_actions.rs"
RANGES = "crates/parsa_python_cst/src/ranges.rs"
prop("C04", "Comments silence exactly the errors of their lines",
 "For every statement or expression, the `type: ignore` and `zuban: ignore` comments (with or without error codes, several in a line, any spacing) that apply are exactly the ones on the lines it covers, with their codes and the position of the codes; a comment before the first statement applies to the file; `# mypy:` lines are found with their text and position. Adding an error code through the offered edit gives a text with the same code, in which the comment covers that place with all former codes and the new one; no edit is offered where a comment is impossible.",
 ["inputs"], "all programs with comments in all places, all line endings, all positions of errors",
 "Tests have a few comments in single-line statements; multi-line statements, several comments per line, line endings and string tokens over lines combine.",
 [CST, ACT], [("type_ignore_comment_for, has_type_ignore_at_start, mypy_inline_config_directives", CST), ("insertion_point_for_type_ignore", ACT)],
 "property-based testing: comments known by construction, round-trip of the edit", "Exploration: no counterexample among the generated cases. The expected comments are known by construction.",
 ["Tree::{type_ignore_comment_for,has_type_ignore_at_start,mypy_inline_config_directives,insertion_point_for_type_ignore}"])
prop("C06", "Selection ranges grow outwards, folding ranges are the indented blocks",
 "At every position of every text, complete or broken, the selection ranges all contain the position and each strictly contains the one before; in valid programs they include every expression around the position. The folding ranges of a valid program are exactly its indented blocks, from the end of the line that opens a block to the end of the block's last line.",
 ["inputs"], "all texts and all positions in them",
 "Tests select in a few snippets; ranges depend on every shape of tree, on line endings and on error recovery.",
 [CST, RANGES], [("selection_ranges", RANGES), ("folding_blocks", CST)],
 "property-based testing: invariants of the ranges, differential testing against CPython's tokens and ast", REFNOTE, ["Tree::{selection_ranges,folding_blocks}"])
prop("C07", "Every name is attributed to its role, its defining statement and its scope",
 "For every program that CPython 3.12 accepts, each name is recognised as a definition, a reference, an attribute, a keyword or a part of a dotted name as in CPython's AST; each definition leads to the statement or expression that defines it, and each name to the innermost function, class or lambda around it; the assignments to attributes in a class and the names defined in a function are all found.",
 ["programs"], "all syntactically valid Python 3.12 programs",
 "Going from a name to its definition is tested on examples; targets, patterns, imports, type parameters, comprehensions and lambdas nest without bound.",
 [CST, "crates/parsa_python_cst/src/completion.rs"], [("expect_defining_stmt, parent_scope, Name::parent", CST), ("scope_for_node", "crates/parsa_python_cst/src/completion.rs")],
 "differential property-based testing against CPython's ast", REFNOTE, ["Tree::filter_all_names", "NameDef::expect_defining_stmt", "Name::parent_scope", "ClassDef::search_potential_self_assignments", "FunctionDef::on_name_def_in_scope"])
prop("C08", "Offered import edits give the intended program",
 "For every module, adding an import at the place offered for new imports gives a valid program with that import right after the docstring and the imports at the start and nothing else changed; adding a name to an existing from-import (with or without parentheses, trailing comma, comments, line joinings) at the offered place gives the same program with that name added at the end.",
 ["programs"], "all modules with imports in all layouts",
 "Tests edit a few modules; parentheses, commas, comments, docstrings, semicolons and line endings combine.",
 [CST, RANGES], [("insertion_point_for_new_name", CST), ("initial_imports_end_code_index", RANGES)],
 "property-based testing: round-trip of the edit through CPython's ast", REFNOTE, ["Tree::initial_imports_end_code_index", "ImportFrom::insertion_point_for_new_name"])
prop("C09", "Operators stand for the special methods that Python calls",
 "For every unary, binary, comparison and augmented operator in every program, the special method, the reflected method and the in-place method are the ones that CPython calls, on the operands on both sides of the operator, also when they are looked up from a cursor on the operator.",
 ["programs"], "all programs with operators",
 "Tests look up a few operators; chains, precedence and two-word operators matter.",
 [CST], [("as_operation, AugAssign::magic_methods, Comparisons::iter, goto_node", CST)],
 "property-based testing: methods found by running each operator in CPython", REFNOTE, ["Sum::as_operation and the like", "AugAssign::magic_methods", "Tree::goto_node"])
prop("C10", "Signature help and completion look at the call and name under the cursor",
 "In every program that CPython 3.12 accepts: at every position, signature help is about the innermost call whose parentheses contain the position, with exactly the arguments that were begun before it and their kinds (positional, name, keyword, starred), and about none outside of calls; at every name, completion knows whether an attribute (of which expression), a module or a name of a module (with its dots and path), an argument (of which call, after which arguments), a parameter, a new name or a plain name is wanted, and which text is to be completed; inside comments and strings it knows that.",
 ["programs", "inputs"], "all programs and all cursor positions in them",
 "Tests look at a few positions in a few calls; nesting, trailing commas, layout and relative imports matter.",
 [CST, "crates/parsa_python_cst/src/completion.rs", "crates/parsa_python_cst/src/signatures.rs"],
 [("completion_node, used_args_until", "crates/parsa_python_cst/src/completion.rs"), ("signature_node, SignatureArgsIterator", "crates/parsa_python_cst/src/signatures.rs")],
 "differential property-based testing against CPython's ast and tokenize", "Exploration. Programs with f-strings, calls within assignment targets without a simple base, and names in patterns are not judged.", ["Tree::completion_node", "Tree::signature_node"])
VFS = "crates/vfs/src/vfs.rs"
TREE = "crates/vfs/src/tree.rs"
WS = "crates/vfs/src/workspaces.rs"
LFS = "crates/vfs/src/local_fs.rs"
PATHS = "crates/vfs/src/path.rs"
NTHREAD = "Exploration: the schedules are those that the machine produced in many repetitions."
prop("V01", "The VFS shows what the editor and the disk say, after every history",
 "After every history of changes on disk (files and directories written, removed, moved, replaced), of notifications about them (prompt, late, spurious, repeated) and of editor buffers being opened, edited, saved and closed, once all notifications have been delivered: the content of each path is that of its open buffer or else that of the disk, a path that exists in neither is not found, and each path leads to exactly one entry, whether it is looked up directly or from its workspace downwards.",
 ["histories", "fault_sequences"], "all histories of disk changes, notifications and editor events, with nested workspaces",
 "Tests play a handful of short histories; stale content needs particular orders of directory replacement, buffers and notifications.",
 [VFS, TREE, WS, LFS], [("invalidate_path, store_in_memory_file, close_in_memory_file", VFS), ("lazily read directories", TREE), ("entries of workspaces", WS)],
 "stateful property-based testing against a model (disk plus open buffers)", "Exploration: no counterexample among the generated histories. One known finding.",
 ["Vfs::{search_path,ensure_file_for_file_entry,in_memory_file,file}"])
prop("V02", "Nothing computed from a changed file survives the change",
 "When a file changes, appears or disappears, on disk or in the editor, every result that was computed from it, directly or through other files, or from its absence, is invalidated, and for every open buffer whose result changes the editor is told: results computed with caching between the changes equal the results of a computation from scratch.",
 ["histories"], "all histories of V01 over files that import each other and look for files that do not exist",
 "Tests edit two or three files; a lost dependency shows up only as a stale diagnostic after a particular sequence of changes.",
 [VFS, TREE, "crates/vfs/src/lib.rs"], [("invalidation of files and their dependents", VFS), ("invalidations of missing entries", TREE)],
 "stateful differential property-based testing: cached results against results from scratch", "Exploration: no counterexample among the generated histories.",
 ["FileEntry::add_invalidation, Entries::add_missing_entry_callback, VfsFile::invalidate_references_to, VfsHandler::on_invalidated_in_memory_file"])
prop("V03", "Every path belongs to the innermost workspace that contains it",
 "For every set of workspaces, nested or with similar names, of any kind and added in any order: a path is found exactly if it exists in one of them, in the innermost workspace that contains it and under its own name, workspaces keep their order and kind, and buffers outside of all workspaces, with or without a file scheme, are found again and do not disturb others.",
 ["configurations", "inputs"], "all sets and orders of workspaces and all paths",
 "Tests use one or two workspaces; wrong attribution needs nesting, common prefixes and late additions.",
 [WS, VFS, TREE], [("Workspaces::add, strip_workspace, search", WS)],
 "property-based testing against a model", "Exploration: no counterexample among the generated configurations.", ["WorkspacesBuilder, Vfs::{add_workspace,search_path,store_in_memory_file}"])
prop("V04", ".gitignore files exclude what git would exclude, and stay up to date",
 "For every history of .gitignore files on disk and in editor buffers, a path below is considered ignored exactly if git's rules for the current text (comments, negation, anchoring, directory-only patterns, wildcards, escapes, last match wins) say so.",
 ["histories", "inputs"], "all texts of .gitignore files, all histories of changing them, all paths",
 "Patterns and histories multiply; tests contain a few patterns.",
 [TREE, VFS], [("gitignore entries of directories", TREE)],
 "stateful property-based testing against a model of gitignore rules", "Exploration. The model of the rules was compared with git's documentation; it is limited to patterns without character classes.", ["GitignoreFile"])
prop("V05", "Path arithmetic and globs agree with the meaning of paths",
 "Normalizing, joining, splitting, relating and converting paths keeps their meaning: needlessly long notations become equal and the normal form is stable, a relative path joined to its base gives the path back, containment and file names are those of the components, a URI is the scheme followed by the path; a glob of files to check selects exactly the paths that its wildcards describe.",
 ["inputs"], "all paths, pairs of paths and globs",
 "Tests contain a few paths; multibyte, blank, dotted and prefix-sharing names combine without bound.",
 [PATHS, "crates/vfs/src/lib.rs", "crates/vfs/src/normalized_path.rs", LFS, "crates/vfs/src/glob_abs_path.rs"], [("normalization and relative paths", PATHS), ("globs", "crates/vfs/src/glob_abs_path.rs")],
 "property-based testing: round trips, invariance under notation, and a model of globs", "Exploration: no counterexample among the generated paths.", ["AbsPath, NormalizedPath, PathWithScheme, GlobAbsPath, VfsHandler::{absolute_path,normalize_path}"])
prop("V06", "Reading directories shows every readable entry once, with links and all",
 "For every directory tree, with symbolic links (relative, absolute, chained, broken, cyclic), hidden and strange names and files that are not UTF-8: reading a directory shows exactly the entries a Python tool can use, each once, of the right kind and with its content, links lead to their targets, cycles do not hang or crash, and after changes with notifications the same holds again.",
 ["inputs", "histories"], "all directory trees and changes to them",
 "Tests have hardly any links; cycles, links to links and replaced directories are combinations.",
 [LFS, TREE], [("read_and_watch_dir, read_and_watch_entry", LFS)],
 "property-based testing on generated directory trees against std::fs", "Exploration: no counterexample among the generated trees.", ["LocalFS::{read_and_watch_dir,read_and_watch_entry}, Directory::entries"])
prop("V07", "Open buffers survive the recovery from a panic",
 "After a recovery from a panic at any point of a history, every open buffer is there with its latest text, the editor is told about each of them, nothing else is open, everything else is as on disk, and the history continues as if the panic had not happened.",
 ["histories", "crash_points"], "all histories of V01 with a panic between any two steps",
 "The recovery is tested in one situation; buffers in virtual, nested and replaced directories are not.",
 [VFS], [("into_panic_recovery, load_panic_recovery", VFS)],
 "stateful property-based testing with injected panics against a model", "Exploration: no counterexample among the generated histories.", ["Vfs::{into_panic_recovery,load_panic_recovery,in_memory_file_ids}"])
prop("V09", "Concurrent lookups agree: a path has one entry and one index",
 "While threads search, load and miss files of one VFS at the same time, every path has one entry and one file index with the right content, each file is loaded once, no dependency that a thread registers is lost, and nothing crashes or blocks forever.",
 ["schedules"], "all interleavings of lookups, loads and additions of workspaces",
 "Tests run on one thread; races depend on the interleaving.",
 [VFS, TREE, "crates/utils/src/lib.rs"], [("ensure_file_for_file_entry", VFS), ("lazily initialized entries", TREE)],
 "concurrency stress testing with generated workloads and invariants over the results", NTHREAD, ["Vfs::{search_path,ensure_file_for_file_entry}"])
prop("U01", "The insert-only vector keeps what is pushed, also under concurrency",
 "For every sequence of operations the insert-only vector behaves like a plain vector and references to elements stay valid while more are pushed; when threads push and read at the same time, every pushed element is found at the index that was returned, nothing is lost or torn, and readers see a growing prefix.",
 ["histories", "schedules"], "all sequences of operations, all interleavings of pushes and reads",
 "A test pushes a few elements on one thread; reallocation during concurrent reads needs timing.",
 ["crates/utils/src/lib.rs"], [("unsafe access to elements behind a lock", "crates/utils/src/lib.rs")],
 "model-based testing and concurrency stress testing", NTHREAD, ["InsertOnlyVec"])
prop("U02", "Basic helpers keep their contracts: cycles, names, binary form, locks",
 "A chain of seen values reports exactly the values that it contains; name comparison helpers agree with comparison of characters; what is stored in binary form is read back equal, and truncated or damaged bytes give an error instead of a crash or endless allocation; a mapped lock guard shows the mapped part and holds the lock.",
 ["inputs", "histories"], "all values and operations of these helpers",
 "Each helper has at most an example test; damaged input is not tested at all.",
 ["crates/utils/src/lib.rs"], [("AlreadySeen, match_case, deserialization, MappedReadGuard", "crates/utils/src/lib.rs")],
 "property-based testing: models and round trips", "Exploration: no counterexample among the generated cases.", ["utils::*"])
prop("L01", "A license is valid exactly as signed and exactly while its dates say so",
 "For every holder and validity, a license that was made or signed with a private key is accepted exactly from its first to its last second, with its level, by any list of public keys that contains the matching one, and by no other; a license with a changed field, a changed signature, in broken JSON, or for a key of small order is not accepted, and nothing makes the verification crash.",
 ["inputs"], "all licenses, keys, points in time, and changes of one field",
 "Tests verify one license with a few changes; a field left out of the signed message or a limit off by one needs the particular field and second.",
 ["crates/licensing/src/lib.rs"], [("verify_with_keys, to_bytes_message", "crates/licensing/src/lib.rs")],
 "property-based testing: signatures made independently, changed fields, times around the limits", "Exploration. Uses a hook to pass keys and time. Moving characters between neighbouring fields is a known finding.",
 ["licensing::{create_license,verify_license_in_path,hex_string_key_to_bytes}, hook vp_verify_license"])
prop("V08", "Changes on disk reach the VFS through the operating system's watcher",
 "When files and directories that were looked at (or whose absence was noticed) are written, replaced, moved, removed or created, also through symbolic links, then after handling the events that the operating system reports, one change at a time, everything that is read afterwards is up to date, and open buffers are unaffected.",
 ["histories"], "all histories of changes to the real file system, handled one by one",
 "The watcher is tested in a few situations by tests of the language server; whether a place is watched depends on what was read before.",
 [LFS, VFS], [("watch, read_and_watch_*, follow_and_watch_symlink, is_unnecessary_invalidation", LFS)],
 "stateful property-based testing on the real file system with inotify", "Exploration. Linux only. Quick successions of changes to the same directory are not claimed (see DESIGN.md).", ["LocalFS::with_watcher, VfsHandler::notify_receiver, Vfs::invalidate_path"])
ZF = "crates/zuban_python/src/file/flow_analysis.rs"
ZI = "crates/zuban_python/src/file/inference.rs"
ZD = "crates/zuban_python/src/file/diagnostics.rs"
ZM = "crates/zuban_python/src/matching/mod.rs"
prop("T01", "Inferred types are sound: they contain the values of the execution",
 "In a program without reported errors (and without Any, casts and ignores), whenever CPython executes an expression, its value belongs to the type that zuban infers for it at that place, including after narrowing by conditions, patterns, assertions, assignments and exits; code that is executed is not considered unreachable, and the program raises no TypeError, AttributeError or NameError.",
 ["programs"], "all well-typed Python programs over a fixed prelude of classes, generics, overloads, enums, named tuples, dataclasses and typed dicts",
 "Tests compare the inferred types of fixed snippets with an expectation; soundness relates the inference to the execution of arbitrary programs.",
 [ZF, ZI, "crates/zuban_python/src/type_/mod.rs"],
 [("narrowing and reachability", ZF), ("inference of expressions", ZI), ("generics and overloads", "crates/zuban_python/src/type_/mod.rs")],
 "differential property-based testing: generated typed programs are executed by CPython and each value is compared with the revealed type",
 "Exploration: no counterexample among the generated programs. Programs on which zuban reports errors are not judged. Built against stand-ins for three small crates that are not available offline (which, colored, shellexpand).",
 ["zuban_python::Project::document(..).diagnostics() with reveal_type"])
prop("T02", "Well-typed programs are accepted without errors",
 "A program in which every value is used according to its declared or evident type (assignments, calls with positional, keyword and starred arguments, returns, generics, unions that are narrowed before use, patterns, comprehensions, closures, inheritance) gets no error, other than notices of unreachable code.",
 ["programs"], "all programs of a conservative fragment of typed Python: expressions are generated for a wanted type, with the rules of the typing specification",
 "Tests compare the messages for fixed snippets; that no correct program is rejected is a statement about all programs.",
 [ZI, ZF, "crates/zuban_python/src/type_/mod.rs"],
 [("assignability", "crates/zuban_python/src/type_/matching.rs"), ("type contexts and generics", "crates/zuban_python/src/matching/matcher/mod.rs"), ("narrowing", ZF)],
 "property-based testing: programs that are well-typed by construction",
 "Exploration: no counterexample among the generated programs. That the programs are correct follows from how they are generated (and T01 executes them).",
 ["zuban_python::Project::document(..).diagnostics()"])
prop("T03", "Type errors are reported where they are",
 "A reachable statement that uses a value against its type gets an error in its line, wherever in the program it stands (top, function, method, loop) and whatever surrounds it: assignments, arguments, returns, attributes, items and operators of wrong types, undefined names, calls with missing or additional arguments, wrong overrides, missing returns, unions that are not narrowed, wrong typed dicts and literals.",
 ["programs"], "all programs of a conservative fragment of typed Python with a statement whose types have no values in common",
 "Tests show that fixed mistakes are reported; that a mistake is not lost in arbitrary surroundings and nested expressions is a statement about all programs.",
 [ZD, ZI, "crates/zuban_python/src/type_/matching.rs"],
 [("checks of statements", ZD), ("assignability", "crates/zuban_python/src/type_/matching.rs"), ("calls and overloads", "crates/zuban_python/src/matching/matcher/utils.rs")],
 "property-based testing: programs with one type error by construction",
 "Exploration: no counterexample among the generated programs.",
 ["zuban_python::Project::document(..).diagnostics()"])
prop("T04", "Diagnostics after any history are those of a new project",
 "After any sequence of edits of open documents, closings, changes of files and directories on disk (each notified), recoveries after a panic and requests for diagnostics in between, the diagnostics of every file are exactly those that a new project reports in the same state, whatever the order in which files are asked for: a changed, added or removed module, stub or package changes what is reported in the files that import it, and nothing is reported twice or from an earlier state.",
 ["histories"], "all histories of edits and requests over projects of modules, packages, namespace packages and stubs with acyclic imports",
 "Tests replay fixed sequences of a few steps; staleness depends on which files were asked for before which change.",
 ["crates/zuban_python/src/database.rs", "crates/zuban_python/src/imports.rs", "crates/zuban_python/src/file/python_file.rs"],
 [("invalidation of files and points", "crates/zuban_python/src/file/python_file.rs"), ("missing imports", "crates/zuban_python/src/imports.rs"), ("invalidation in the file system", "crates/vfs/src/vfs.rs"), ("selection of files", "crates/zuban_python/src/select_files.rs")],
 "stateful property-based testing: random histories against a new project in the final state",
 "Exploration. Modules export what is annotated or a simple value, as the order of inference otherwise matters (see DESIGN.md); cyclic imports are not generated.",
 ["zuban_python::Project"])
prop("T05", "An open document has the text the client has; positions agree",
 "After any sequence of change notifications (ranges in UTF-8, UTF-16 or UTF-32 positions, full texts, several changes at once) the text of an open document is that of the client, up to newlines at its end; a notification with an invalid range is refused as a whole and changes nothing; the positions of diagnostics are the same place in all encodings, and asking at a place gives the same answer in all of them.",
 ["histories", "inputs"], "all texts and all sequences of valid and invalid change notifications",
 "Tests apply single changes to short texts; the line index is shared between changes and the encodings differ only for rare characters.",
 ["crates/zuban_python/src/lsp_utils.rs", "crates/zuban_python/src/lines.rs"],
 [("application of changes", "crates/zuban_python/src/lsp_utils.rs"), ("positions", "crates/zuban_python/src/lines.rs")],
 "model-based property testing: the client's text is the model",
 "Exploration. Texts with a lone carriage return are not generated.",
 ["zuban_python::Project::store_file_with_lsp_changes"])

prop("T06", "Every module gets the options its configuration gives it",
 "For every mypy configuration (mypy.ini, setup.cfg or pyproject.toml, with module sections, and options on the command line, in every accepted spelling), the options of the project and of every module are those that mypy gives them: the command line wins over the file, sections over the project, a specific pattern over a more general one whatever their order, later lines over earlier ones, strict only sets what nothing else sets.",
 ["configurations"], "all configurations of mypy's options and all module names",
 "Tests read single options; what an option is depends on the file format, on its inverse names, on all sections whose patterns match and on the command line together.",
 ["crates/config/src/lib.rs", "crates/cli_args/src/lib.rs"],
 [("reading of configurations", "crates/config/src/lib.rs"), ("options of the command line", "crates/cli_args/src/lib.rs"), ("options of a file", "crates/zuban_python/src/file/python_file.rs")],
 "differential property testing of generated configurations against mypy's own option processing",
 "Exploration. Options whose default changed between the mypy that zuban follows and the installed one are not compared.",
 ["config::find_config", "cli_args::apply_flags"])

prop("T07", "The command line reports exactly the configured errors of the chosen files",
 "zmypy checks exactly the Python files that the given paths contain (the whole project if there are none) without the excluded and ignored ones and what a stub covers, where a file that is named itself is always checked; in each of them it reports exactly the errors that the options of this file ask for (project, sections, configuration comments, enabled and disabled error codes, Python version, platform), each once, in the requested form, and the counts and the summary agree with them. No text of a configuration comment makes it fail.",
 ["configurations", "inputs", "schedules"], "all projects, configurations, configuration comments, arguments and schedules of its threads",
 "Tests check single options on single files; the selection of files, the options of a file and the filters of its errors come from many places at once, and files are loaded in parallel.",
 ["crates/zmypy/src/lib.rs", "crates/zuban_python/src/select_files.rs", "crates/zuban_python/src/diagnostics.rs", "crates/config/src/lib.rs", "crates/cli_args/src/lib.rs"],
 [("command line", "crates/zmypy/src/lib.rs"), ("selection of files", "crates/zuban_python/src/select_files.rs"), ("configuration comments", "crates/zuban_python/src/file/python_file.rs")],
 "property testing of generated projects; expected errors by construction from options computed by mypy",
 "Exploration. Statements whose errors depend on single options; gitignore together with given paths is not judged.",
 ["zmypy::with_diagnostics_from_cli"])

na("N01", "The language server answers every request once, in any order",
 "For every sequence of requests, notifications and cancellations, the language server answers each request exactly once, publishes diagnostics for the latest version of each document, and keeps running after a panic in a request.",
 ["histories"], "all message sequences", "Tests send fixed sequences of messages.",
 ["crates/zubanls/src/server.rs"], [("main loop", "crates/zubanls/src/server.rs")],
 "The crate zubanls needs lsp-server and other crates that are not in the offline cargo cache, so that nothing in it can be executed here; what it relies on (Project, Vfs, documents, recovery) is covered by T04, T05, V01, V02 and V07.")
