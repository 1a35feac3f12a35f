//! The reference: a CPython process speaking a small length-prefixed protocol.
use std::cell::RefCell;
use std::io::{BufReader, Read, Write, BufRead};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Py {
    _child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
}

thread_local! {
    static PY: RefCell<Option<Py>> = const { RefCell::new(None) };
}

const SRC: &str = include_str!("oracle.py");

fn start() -> Py {
    let mut child = Command::new("python3")
        .arg("-I")
        .arg("-c")
        .arg(SRC)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("python3 is needed as the reference");
    let stdin = child.stdin.take().unwrap();
    let stdout = BufReader::new(child.stdout.take().unwrap());
    Py { _child: child, stdin, stdout }
}

fn try_ask(p: &mut Py, cmd: &str, data: &[u8]) -> std::io::Result<Vec<u8>> {
    p.stdin.write_all(format!("{cmd} {}\n", data.len()).as_bytes())?;
    p.stdin.write_all(data)?;
    p.stdin.flush()?;
    let mut l = String::new();
    p.stdout.read_line(&mut l)?;
    let n: usize = l
        .trim()
        .parse()
        .map_err(|_| std::io::Error::other(format!("bad reply {l:?}")))?;
    let mut b = vec![0; n];
    p.stdout.read_exact(&mut b)?;
    Ok(b)
}

/// None: the reference could not answer (crashed, e.g. by nesting), the case is skipped.
pub fn ask(cmd: &str, data: &str) -> Option<String> {
    PY.with(|c| {
        let mut c = c.borrow_mut();
        let p = c.get_or_insert_with(start);
        match try_ask(p, cmd, data.as_bytes()) {
            Ok(b) => {
                let r = String::from_utf8_lossy(&b).into_owned();
                if r.starts_with("EXC ") {
                    eprintln!("oracle exception: {r}\non {data:?}");
                    panic!("oracle exception {r}");
                }
                Some(r)
            }
            Err(_) => {
                *c = None;
                None
            }
        }
    })
}
