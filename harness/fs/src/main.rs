mod hist;
mod ignore;
mod listing;
mod paths;
mod spaces;
mod util;
mod watch;
mod world;
use vpcore::{BASE, PropDef};

static PROPS: &[PropDef] = &[
    PropDef {
        id: "V01",
        rule: "Histories of up to 24 steps over 12 files in up to 4 (nested) workspaces: disk changes with prompt, late or spurious notifications, editor buffers opened, edited, saved and closed; non-trivial if the history ran to its end and all files were compared.",
        quick: 120_000,
        thorough: 4_000_000,
        f: hist::v01,
        text: Some(hist::v01_text),
        ..BASE
    },
    PropDef {
        id: "V02",
        rule: "The histories of V01 over files that import each other (and miss imports), with results computed and cached in between like the type checker does; non-trivial if the history ran to its end and all results were compared.",
        quick: 120_000,
        thorough: 4_000_000,
        f: hist::v02,
        ..BASE
    },
    PropDef {
        id: "V07",
        rule: "The histories of V01 with recoveries from a panic in between (all open buffers are carried over to a new VFS); non-trivial if the history ran to its end and all files were compared.",
        quick: 120_000,
        thorough: 4_000_000,
        f: hist::v07,
        ..BASE
    },
    PropDef {
        id: "V05",
        rule: "Pairs of paths (related or not, with multi-byte, blank and dotted names) in plain and needlessly long notation, and globs with paths that nearly match; non-trivial: every case, counted by its texts.",
        quick: 400_000,
        thorough: 20_000_000,
        f: paths::v05,
        ..BASE
    },
    PropDef {
        id: "V06",
        rule: "Directory trees with files, directories and symbolic links (relative, absolute, chained, broken, cyclic), hidden, ignored and non-UTF-8 names and non-UTF-8 contents, then up to three changes with events; non-trivial: every tree that was compared, counted by its content.",
        quick: 150_000,
        thorough: 5_000_000,
        f: listing::v06,
        ..BASE
    },
    PropDef {
        id: "V04",
        rule: "Histories of .gitignore files in two directories, on disk and in editor buffers, with up to five patterns each, probed with random paths after every step; non-trivial: every history that ran to its end, counted by its text.",
        quick: 100_000,
        thorough: 5_000_000,
        f: ignore::v04,
        ..BASE
    },
    PropDef {
        id: "V03",
        rule: "Up to 7 workspaces of all kinds, nested, with names that are prefixes of each other, added in any order and partly later, then 36 paths searched in any order, with and without regard to case, and buffers outside of all workspaces; non-trivial: every case that ran to its end, counted by its history.",
        quick: 100_000,
        thorough: 4_000_000,
        f: spaces::v03,
        ..BASE
    },
    PropDef {
        id: "U01",
        rule: "Histories of up to 30 operations (with bursts of pushes) on an insert-only vector against a plain one, and every 40th case 2-6 threads that push and read at once; non-trivial: every case, counted by its choices.",
        quick: 100_000,
        thorough: 3_000_000,
        f: util::u01,
        repeat: 300,
        ..BASE
    },
    PropDef {
        id: "U02",
        rule: "Chains of seen values, pairs of names, values to be stored in binary form (also truncated and with flipped bits) and lock guards; non-trivial: every case, counted by its choices.",
        quick: 200_000,
        thorough: 10_000_000,
        f: util::u02,
        ..BASE
    },
    PropDef {
        id: "V08",
        rule: "Up to 20 changes of the real file system (written in place or replaced, moved, removed, linked, also through links) and of editor buffers, each followed by the events that the operating system reports; non-trivial if at least one event about the files was treated, counted by its history.",
        quick: 25_000,
        thorough: 1_000_000,
        f: watch::v08,
        repeat: 5,
        ..BASE
    },
    PropDef {
        id: "V09",
        rule: "2-6 threads that search, load and miss up to 18 files of one VFS and add a workspace at the same time; non-trivial: every case, counted by what the threads do.",
        quick: 30_000,
        thorough: 1_000_000,
        f: util::v09,
        repeat: 300,
        ..BASE
    },
];

fn main() {
    vpcore::main_with(PROPS);
}
