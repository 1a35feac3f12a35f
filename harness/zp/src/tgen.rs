//! Programs with types: statements and expressions which are built to be well typed, terminate
//! when they are run, and show the inferred type of what they compute with `reveal_type`.
use vpcore::Src;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Int,
    Bool,
    Str,
    Float,
    Bytes,
    None,
    List(Box<Ty>),
    Set(Box<Ty>),
    Dict(Box<Ty>, Box<Ty>),
    Tup(Vec<Ty>),
    VarTup(Box<Ty>),
    Union(Vec<Ty>),
    Class(&'static str),
    Box_(Box<Ty>),
    Lit(Vec<&'static str>),
}
use Ty::*;

impl Ty {
    pub fn ann(&self) -> String {
        match self {
            Int => "int".into(),
            Bool => "bool".into(),
            Str => "str".into(),
            Float => "float".into(),
            Bytes => "bytes".into(),
            None => "None".into(),
            List(t) => format!("list[{}]", t.ann()),
            Set(t) => format!("set[{}]", t.ann()),
            Dict(k, v) => format!("dict[{}, {}]", k.ann(), v.ann()),
            Tup(ts) if ts.is_empty() => "tuple[()]".into(),
            Tup(ts) => format!("tuple[{}]", ts.iter().map(|t| t.ann()).collect::<Vec<_>>().join(", ")),
            VarTup(t) => format!("tuple[{}, ...]", t.ann()),
            Union(ts) => ts.iter().map(|t| t.ann()).collect::<Vec<_>>().join(" | "),
            Class(c) => c.to_string(),
            Box_(t) => format!("Box[{}]", t.ann()),
            Lit(v) => format!("Literal[{}]", v.join(", ")),
        }
    }
    fn hashable(&self) -> bool {
        match self {
            Int | Bool | Str | Bytes | None | Lit(_) => true,
            Tup(ts) => ts.iter().all(|t| t.hashable()),
            Class("E") => true,
            _ => false,
        }
    }
    /// Whether expressions need the expected type to be inferred as this type.
    fn needs_context(&self, invariant: bool) -> bool {
        match self {
            Lit(_) => true,
            Union(_) | Class("A") | VarTup(_) if invariant => true,
            Union(v) | Tup(v) => v.iter().any(|t| t.needs_context(invariant)),
            List(x) | Set(x) | Box_(x) => x.needs_context(true),
            Dict(k, v) => k.needs_context(true) || v.needs_context(true),
            VarTup(x) => x.needs_context(invariant),
            _ => false,
        }
    }
    /// Whether all expressions that are generated for it are inferred as this type.
    fn one_type(&self) -> bool {
        match self {
            Union(_) | Lit(_) | VarTup(_) | Class("A") | Bool | Int | None => false,
            Tup(v) => v.iter().all(|t| t.one_type()),
            List(x) | Set(x) | Box_(x) => x.one_type(),
            Dict(k, v) => k.one_type() && v.one_type(),
            _ => true,
        }
    }
    fn members(&self) -> Vec<Ty> {
        match self {
            Union(ts) => ts.clone(),
            t => vec![t.clone()],
        }
    }
    /// The class `isinstance` takes for it.
    fn class(&self) -> Option<String> {
        Some(match self {
            Int => "int".into(),
            Bool => "bool".into(),
            Str => "str".into(),
            Float => "float".into(),
            Bytes => "bytes".into(),
            List(_) => "list".into(),
            Set(_) => "set".into(),
            Dict(..) => "dict".into(),
            Tup(_) | VarTup(_) => "tuple".into(),
            Class(c) => c.to_string(),
            Box_(_) => "Box".into(),
            _ => return Option::None,
        })
    }
}

#[derive(Clone)]
struct Var {
    name: String,
    ty: Ty,
    /// Whether it is declared with that type and may be assigned to.
    declared: bool,
}

#[derive(Clone)]
struct Func {
    name: String,
    params: Vec<(String, Ty, bool)>,
    /// None: not annotated; its type is only known to the checker.
    ret: Option<Ty>,
}

pub struct TG<'a> {
    pub s: &'a mut Src,
    pub out: String,
    pub ind: usize,
    vars: Vec<Var>,
    funcs: Vec<Func>,
    next: usize,
    ret: Option<Option<Ty>>,
    in_loop: bool,
    /// Whether expressions are avoided whose type is known to be lost.
    pub precise: bool,
    /// Variables below were made outside of the current loop.
    loop_base: usize,
    budget: i32,
    reveal: bool,
    no_walrus: usize,
    pub exports: Vec<(String, String)>,
    tag: String,
}

pub const PRELUDE: &str = "from __future__ import annotations
from dataclasses import dataclass
from enum import Enum
from typing import Any, Callable, Iterator, Literal, NamedTuple, Protocol, TypedDict, overload
class A:
    k: str = 'A'
    def __init__(self, x: int) -> None:
        self.x = x
        self.o: str | None = None if x % 2 else 'o'
    def m(self, q: int = 1) -> str:
        return 'A' * q
    @property
    def p(self) -> int:
        return self.x + 1
    @classmethod
    def make(cls, x: int) -> A:
        return cls(x)
    @staticmethod
    def st(x: int) -> list[int]:
        return [x]
    def __add__(self, other: int) -> A:
        return A(self.x + other)
    def __len__(self) -> int:
        return self.x if self.x > 0 else 0
class B(A):
    y: float = 1.5
    def m(self, q: int = 1) -> str:
        return 'B' * q
class C:
    z: list[int] = [1]
    def __getitem__(self, i: int) -> str:
        return 'abc'[i]
    def __iter__(self) -> Iterator[int]:
        yield 1
        yield 2
    def __call__(self, a: int, b: str = 'b') -> tuple[int, str]:
        return (a, b)
    def __enter__(self) -> A:
        return A(3)
    def __exit__(self, *args: object) -> None:
        return None
    def __contains__(self, x: object) -> bool:
        return True
class E(Enum):
    P = 1
    Q = 2
    R = 'r'
@dataclass
class D:
    a: int
    b: str | None = None
class N(NamedTuple):
    a: int
    b: str
class Box[T]:
    def __init__(self, v: T) -> None:
        self.v = v
    def get(self) -> T:
        return self.v
    def map[U](self, f: Callable[[T], U]) -> Box[U]:
        return Box(f(self.v))
class K1:
    kind: Literal['a'] = 'a'
    one: int = 1
class K2:
    kind: Literal['b'] = 'b'
    two: str = 'two'
class K3(K1):
    three: list[str] = []
class TD(TypedDict):
    p: int
    q: str | None
class HasX(Protocol):
    x: int
@overload
def over(x: int) -> str: ...
@overload
def over(x: str) -> int: ...
@overload
def over(x: None) -> None: ...
def over(x: int | str | None) -> int | str | None:
    if isinstance(x, int):
        return str(x)
    return None if x is None else len(x)
def deco[**P, R](f: Callable[P, R]) -> Callable[P, list[R]]:
    def inner(*args: P.args, **kwargs: P.kwargs) -> list[R]:
        return [f(*args, **kwargs)]
    return inner
def ident[T](x: T) -> T:
    return x
def first[T](xs: list[T]) -> T | None:
    for x in xs:
        return x
    return None
def pair[S, T](a: S, b: T) -> tuple[S, T]:
    return (a, b)
def cond(i: int) -> bool:
    return i % 3 != 0
def gen(n: int) -> Iterator[int]:
    for i in range(n):
        yield i
";

impl<'a> TG<'a> {
    pub fn new(s: &'a mut Src, budget: i32, tag: &str) -> Self {
        TG {
            s,
            out: String::new(),
            ind: 0,
            vars: vec![],
            funcs: vec![],
            next: 0,
            ret: Option::None,
            in_loop: false,
            precise: false,
            loop_base: 0,
            budget,
            reveal: true,
            no_walrus: 0,
            exports: vec![],
            tag: tag.to_string(),
        }
    }
    pub fn line(&mut self, l: impl AsRef<str>) {
        for _ in 0..self.ind {
            self.out.push_str("    ");
        }
        self.out.push_str(l.as_ref());
        self.out.push('\n');
    }
    fn fresh(&mut self, p: &str) -> String {
        self.next += 1;
        format!("{p}{}{}", self.tag, self.next)
    }
    fn show(&mut self, e: &str) {
        if self.reveal {
            self.line(format!("reveal_type({e})"));
        }
    }

    pub fn simple(&mut self) -> Ty {
        match self.s.weighted(&[5, 4, 2, 2, 1, 1, 1]) {
            0 => Int,
            1 => Str,
            2 => Bool,
            3 => Float,
            4 => Bytes,
            5 => Class(["A", "B", "C", "D", "N", "E"][self.s.n(6)]),
            _ => None,
        }
    }
    fn hashable(&mut self) -> Ty {
        match self.s.n(5) {
            0 | 1 => Str,
            2 | 3 => Int,
            _ => Class("E"),
        }
    }
    pub fn ty(&mut self, d: usize) -> Ty {
        if d == 0 {
            return self.simple();
        }
        match self.s.weighted(&[8, 3, 1, 2, 2, 1, 4, 1, 1]) {
            0 => self.simple(),
            1 => List(Box::new(self.ty(d - 1))),
            2 => Set(Box::new(self.hashable())),
            3 => Dict(Box::new(self.hashable()), Box::new(self.ty(d - 1))),
            4 => {
                let n = self.s.range(1, 3);
                Tup((0..n).map(|_| self.ty(d - 1)).collect())
            }
            5 => VarTup(Box::new(self.ty(d - 1))),
            6 => self.union(d),
            7 => Box_(Box::new(self.ty(d - 1))),
            _ => Lit(vec!["1", "2", "'a'", "b'x'"][..self.s.range(1, 4)].to_vec()),
        }
    }
    fn union(&mut self, d: usize) -> Ty {
        let mut v: Vec<Ty> = vec![];
        let n = self.s.range(2, 3);
        for _ in 0..n {
            let t = match self.s.n(6) {
                0 => None,
                1 => Int,
                2 => Str,
                3 if d > 0 => self.ty(d - 1),
                _ => self.simple(),
            };
            for m in t.members() {
                // A float may be an int, which `isinstance` and the types disagree about.
                let clash = |a: &Ty, b: &Ty| match (a, b) {
                    (Float, Int | Bool) | (Int | Bool, Float) => true,
                    (Int, Bool) | (Bool, Int) => false,
                    (List(_), List(_)) | (Set(_), Set(_)) | (Dict(..), Dict(..)) | (Box_(_), Box_(_)) => true,
                    (Tup(_) | VarTup(_) | Class("N"), Tup(_) | VarTup(_) | Class("N")) => true,
                    (Lit(_), Lit(_)) => true,
                    (a, b) => a == b,
                };
                if !v.iter().any(|x| clash(x, &m)) {
                    v.push(m);
                }
            }
        }
        if v.len() == 1 { v.pop().unwrap() } else { Union(v) }
    }

    fn assignable(from: &Ty, to: &Ty) -> bool {
        if from == to {
            return true;
        }
        match (from, to) {
            (Class("B"), Class("A")) => true,
            (f, Union(ts)) if !matches!(f, Union(_)) => ts.iter().any(|t| Self::assignable(f, t)),
            (Union(fs), t) => fs.iter().all(|f| Self::assignable(f, t)),
            (Tup(a), Tup(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| Self::assignable(x, y)),
            (Tup(a), VarTup(b)) => a.iter().all(|x| Self::assignable(x, b)),
            (VarTup(a), VarTup(b)) => Self::assignable(a, b),
            _ => false,
        }
    }

    fn var_of(&mut self, t: &Ty) -> Option<String> {
        let c: Vec<usize> = (0..self.vars.len()).filter(|i| {
                let v = &self.vars[*i];
                // What was inferred without an expected type may have another type
                (v.declared || !v.ty.needs_context(false)) && Self::assignable(&v.ty, t)
            })
            .collect();
        if c.is_empty() {
            return Option::None;
        }
        Some(self.vars[c[self.s.n(c.len())]].name.clone())
    }
    fn any_var(&mut self, f: impl Fn(&Ty) -> bool) -> Option<(String, Ty)> {
        let c: Vec<usize> = (0..self.vars.len()).filter(|i| f(&self.vars[*i].ty)).collect();
        if c.is_empty() {
            return Option::None;
        }
        let v = &self.vars[c[self.s.n(c.len())]];
        Some((v.name.clone(), v.ty.clone()))
    }

    pub fn e(&mut self, t: &Ty, d: usize) -> String {
        if self.s.chance(1, 3) {
            if let Some(v) = self.var_of(t) {
                return v;
            }
        }
        if d == 0 || *t == None {
            return self.leaf(t);
        }
        if t.needs_context(false) {
            // Only what passes the expected type on
            match t {
                Lit(_) if self.s.chance(1, 3) => {
                    let c = self.cond(d - 1);
                    return format!("({} if {c} else {})", self.e(t, d - 1), self.e(t, d - 1));
                }
                List(_) | Dict(..) | Box_(_) if !self.precise && self.s.chance(1, 4) => return format!("ident({})", self.e(t, d - 1)),
                _ => {}
            }
            return match t {
                List(x) => {
                    let n = self.s.range(1, 3);
                    format!("[{}]", (0..n).map(|_| self.e(x, d - 1)).collect::<Vec<_>>().join(", "))
                }
                Dict(k, v) => format!("{{{}: {}, {}: {}}}", self.e(k, d - 1), self.e(v, d - 1), self.e(k, d - 1), self.e(v, d - 1)),
                Tup(ts) => {
                    let v: Vec<String> = ts.iter().map(|t| self.e(t, d - 1)).collect();
                    format!("({},)", v.join(", "))
                }
                Union(ts) => {
                    let i = self.s.n(ts.len());
                    self.e(&ts[i], d - 1)
                }
                Box_(x) => format!("Box({})", self.e(x, d - 1)),
                _ => self.leaf(t),
            };
        }
        // Ways that work for every type
        match self.s.n(26) {
            0 => {
                let c = self.cond(d - 1);
                // The first value is the expected type of the second
                let other = if t.one_type() { self.e(t, d - 1) } else { self.leaf(t) };
                return format!("({} if {c} else {other})", self.e(t, d - 1));
            }
            1 if !self.precise => return format!("ident({})", self.e(t, d - 1)),
            2 => {
                let o = self.simple();
                return if self.s.coin() {
                    format!("pair({}, {})[0]", self.e(t, d - 1), self.e(&o, d - 1))
                } else {
                    format!("({}, {})[-1]", self.e(&o, d - 1), self.e(t, d - 1))
                };
            }
            3 => {
                let c: Vec<Func> = self
                    .funcs
                    .iter()
                    .filter(|f| f.ret.as_ref().is_some_and(|r| *r != None && Self::assignable(r, t)))
                    .cloned()
                    .collect();
                if !c.is_empty() {
                    let f = self.s.pick(&c).clone();
                    return self.call(&f, d - 1);
                }
            }
            4 => return format!("Box({}).get()", self.e(t, d - 1)),
            5 if !matches!(t, None) => return format!("[{}][0]", self.e(t, d - 1)),
            6 => {
                let k = self.leaf(&Str);
                return format!("{{{k}: {}}}[{k}]", self.e(t, d - 1));
            }
            // A lambda that only returns None has no value
            7 if !t.members().contains(&None) => {
                self.no_walrus += 1;
                let r = format!("(lambda: {})()", self.e(t, d - 1));
                self.no_walrus -= 1;
                return r;
            }
            8 if self.no_walrus == 0 => {
                let w = self.fresh("w");
                return format!("({w} := {})", self.e(t, d - 1));
            }
            9 if !self.precise => return format!("next(iter([{}]))", self.e(t, d - 1)),
            _ => {}
        }
        match t {
            Int => match self.s.n(16) {
                0..=2 => {
                    let op = *self.s.pick(&["+", "-", "*", "//", "%", "&", "|", "^"]);
                    let (a, b) = (self.e(&Int, d - 1), self.e(&Int, d - 1));
                    // A division by zero is reported
                    if matches!(op, "//" | "%") { format!("({a} {op} max(1, {b}))") } else { format!("({a} {op} {b})") }
                }
                3 => {
                    let t = match self.s.n(4) {
                        0 => Str,
                        1 => List(Box::new(self.ty(d - 1))),
                        2 => Dict(Box::new(Str), Box::new(self.ty(d - 1))),
                        _ => Class("A"),
                    };
                    format!("len({})", self.e(&t, d - 1))
                }
                4 => format!("abs({})", self.e(&Int, d - 1)),
                5 => format!("sum({})", self.e(&List(Box::new(Int)), d - 1)),
                6 => format!("max({}, {})", self.e(&Int, d - 1), self.e(&Int, d - 1)),
                7 => format!("{}.x", self.e(&Class("A"), d - 1)),
                8 => format!("{}.p", self.e(&Class("B"), d - 1)),
                9 => format!("{}.a", { let c = *self.s.pick(&["D", "N"]); self.e(&Class(c), d - 1) }),
                10 => format!("{}.count({})", self.e(&Str, d - 1), self.e(&Str, d - 1)),
                11 => format!("round({})", self.e(&Float, d - 1)),
                12 => format!("(-{})", self.e(&Int, d - 1)),
                13 => format!("{}[0]", self.e(&Tup(vec![Int, Str]), d - 1)),
                14 => format!("{}.get({}, {})", self.e(&Dict(Box::new(Str), Box::new(Int)), d - 1), self.e(&Str, d - 1), self.e(&Int, d - 1)),
                _ => format!("(abs({}) and abs({}))", self.e(&Int, d - 1), self.e(&Int, d - 1)),
            },
            Str => match self.s.n(14) {
                0 => format!("({} + {})", self.e(&Str, d - 1), self.e(&Str, d - 1)),
                1 => format!("(str({}) * {})", self.e(&Str, d - 1), self.e(&Int, 0)),
                2 => format!("str({}).upper()", self.e(&Str, d - 1)),
                3 => {
                    let t = self.ty(1);
                    format!("f'a{{{}}}b'", self.e(&t, 0).replace('\'', "\""))
                }
                4 => format!("str({})", self.e(&Int, d - 1)),
                5 => format!("str(',').join({})", self.e(&List(Box::new(Str)), d - 1)),
                6 => format!("{}[{}:]", self.e(&Str, d - 1), self.s.n(3)),
                7 => format!("{}.m({})", self.e(&Class("A"), d - 1), self.e(&Int, 0)),
                8 => format!("{}.b", self.e(&Class("N"), d - 1)),
                9 => format!("repr({})", self.e(&Int, d - 1)),
                10 => format!("(str({}) or {})", self.e(&Str, d - 1), self.e(&Str, d - 1)),
                11 => format!("{}[{}]", self.e(&Class("C"), d - 1), self.s.n(3)),
                12 => format!("{}.k", self.e(&Class("B"), d - 1)),
                _ => format!("sorted({})[0]", self.e(&List(Box::new(Str)), d - 1)),
            },
            Bool => self.cond(d),
            Float => match self.s.n(5) {
                0 => format!("({} / max(1, {}))", self.e(&Int, d - 1), self.e(&Int, d - 1)),
                1 => format!("({} * {})", self.e(&Float, d - 1), self.e(&Int, d - 1)),
                2 => format!("float({})", self.e(&Int, d - 1)),
                3 => format!("{}.y", self.e(&Class("B"), d - 1)),
                _ => format!("({} + {})", self.e(&Float, d - 1), self.e(&Float, d - 1)),
            },
            Bytes => match self.s.n(3) {
                0 => format!("{}.encode()", self.e(&Str, d - 1)),
                1 => format!("bytes({})", self.s.n(3)),
                _ => format!("({} + {})", self.e(&Bytes, d - 1), self.e(&Bytes, d - 1)),
            },
            List(x) => match self.s.n(10) {
                0..=3 => {
                    let n = self.s.range(1, 3);
                    format!("[{}]", (0..n).map(|_| self.e(x, d - 1)).collect::<Vec<_>>().join(", "))
                }
                4 => format!("[*{}, {}]", self.e(t, d - 1), self.e(x, d - 1)),
                5 => format!("({} + {})", self.e(t, d - 1), self.e(t, d - 1)),
                6 => {
                    let i = self.fresh("i");
                    self.no_walrus += 1;
                    let el = self.e(x, d - 1);
                    self.no_walrus -= 1;
                    let c = if self.s.coin() { format!(" if cond({i})") } else { String::new() };
                    format!("[{el} for {i} in range({}){c}]", self.s.n(4))
                }
                7 => format!("{}[{}:]", self.e(t, d - 1), self.s.n(2)),
                8 => format!("list(tuple({}))", self.e(t, d - 1)),
                _ => format!("{}.copy()", self.e(t, d - 1)),
            },
            Set(x) => match self.s.n(3) {
                0 => format!("{{{}, {}}}", self.e(x, d - 1), self.e(x, d - 1)),
                1 => format!("set({})", self.e(&List(x.clone()), d - 1)),
                _ => format!("({} | {})", self.e(t, d - 1), self.e(t, d - 1)),
            },
            Dict(k, v) => match self.s.n(5) {
                0 | 1 => format!("{{{}: {}, {}: {}}}", self.e(k, d - 1), self.e(v, d - 1), self.e(k, d - 1), self.e(v, d - 1)),
                2 => format!("{{**{}, {}: {}}}", self.e(t, d - 1), self.e(k, d - 1), self.e(v, d - 1)),
                3 => {
                    let i = self.fresh("i");
                    self.no_walrus += 1;
                    let r = format!("{{{}: {} for {i} in gen({})}}", self.e(k, d - 1), self.e(v, d - 1), self.s.n(3));
                    self.no_walrus -= 1;
                    r
                }
                _ => format!("{}.copy()", self.e(t, d - 1)),
            },
            Tup(ts) => {
                if ts.len() == 2 && self.s.chance(1, 4) {
                    return format!("pair({}, {})", self.e(&ts[0], d - 1), self.e(&ts[1], d - 1));
                }
                if ts.len() > 1 && self.s.chance(1, 5) {
                    let (a, b) = ts.split_at(1);
                    return format!("(({},) + {})", self.e(&a[0], d - 1), self.e(&Tup(b.to_vec()), d - 1));
                }
                let v: Vec<String> = ts.iter().map(|t| self.e(t, d - 1)).collect();
                format!("({},)", v.join(", "))
            }
            VarTup(x) => match self.s.n(3) {
                0 => format!("({}, {})", self.e(x, d - 1), self.e(x, d - 1)),
                1 => format!("tuple({})", self.e(&List(x.clone()), d - 1)),
                _ => format!("({}, *{})", self.e(x, d - 1), self.e(t, d - 1)),
            },
            Union(ts) => {
                let i = self.s.n(ts.len());
                match self.s.n(4) {
                    0 => {
                        let j = self.s.n(ts.len());
                        let c = self.cond(d - 1);
                        format!("({} if {c} else {})", self.e(&ts[i], d - 1), self.leaf(&ts[j]))
                    }
                    1 if ts.len() == 2 && ts.contains(&None) => {
                        let x = ts.iter().find(|x| **x != None).unwrap().clone();
                        match self.s.n(3) {
                            0 => format!("first({})", self.leaf(&List(Box::new(x)))),
                            1 => format!("{}.get({})", self.e(&Dict(Box::new(Str), Box::new(x)), d - 1), self.e(&Str, 0)),
                            _ => format!("next(iter({}), None)", self.e(&List(Box::new(x)), d - 1)),
                        }
                    }
                    _ => self.e(&ts[i], d - 1),
                }
            }
            Class(c) => match *c {
                "A" => match self.s.n(5) {
                    0 => format!("A({})", self.e(&Int, d - 1)),
                    1 => format!("A.make({})", self.e(&Int, d - 1)),
                    2 => format!("({} + {})", self.e(t, d - 1), self.e(&Int, d - 1)),
                    3 => format!("B({})", self.e(&Int, d - 1)),
                    _ => format!("A(x={})", self.e(&Int, d - 1)),
                },
                "B" => format!("B({})", self.e(&Int, d - 1)),
                "D" => match self.s.n(3) {
                    0 => format!("D({})", self.e(&Int, d - 1)),
                    1 => format!("D({}, {})", self.e(&Int, d - 1), self.e(&Union(vec![Str, None]), d - 1)),
                    _ => format!("D(b={}, a={})", self.e(&Str, d - 1), self.e(&Int, d - 1)),
                },
                "N" => format!("N({}, {})", self.e(&Int, d - 1), self.e(&Str, d - 1)),
                _ => self.leaf(t),
            },
            Box_(x) => match self.s.n(3) {
                0 => {
                    let o = self.simple();
                    format!("Box({}).map(lambda q: {})", self.e(&o, d - 1), self.e(x, d - 1))
                }
                _ => format!("Box({})", self.e(x, d - 1)),
            },
            _ => self.leaf(t),
        }
    }

    pub fn leaf(&mut self, t: &Ty) -> String {
        match t {
            Int => self.s.n(8).to_string(),
            Bool => (*self.s.pick(&["True", "False"])).into(),
            Str => (*self.s.pick(&["''", "'a'", "'bc'", "\"d e\"", "'12'"])).into(),
            Float => (*self.s.pick(&["0.5", "1.0", "2e3"])).into(),
            Bytes => (*self.s.pick(&["b''", "b'x'"])).into(),
            None => "None".into(),
            List(x) => format!("[{}]", self.leaf(x)),
            Set(x) => format!("{{{}}}", self.leaf(x)),
            Dict(k, v) => format!("{{{}: {}}}", self.leaf(k), self.leaf(v)),
            Tup(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.leaf(t)).collect();
                if v.is_empty() { "()".into() } else { format!("({},)", v.join(", ")) }
            }
            VarTup(x) => match self.s.n(3) {
                0 => "()".into(),
                1 => format!("({},)", self.leaf(x)),
                _ => format!("({}, {})", self.leaf(x), self.leaf(x)),
            },
            Union(ts) => {
                let i = self.s.n(ts.len());
                self.leaf(&ts[i])
            }
            Class(c) => match *c {
                "A" => format!("A({})", self.s.n(4)),
                "B" => format!("B({})", self.s.n(4)),
                "C" => "C()".into(),
                "D" => format!("D({})", self.s.n(4)),
                "N" => format!("N({}, 'n')", self.s.n(4)),
                _ => (*self.s.pick(&["E.P", "E.Q", "E.R"])).into(),
            },
            Box_(x) => format!("Box({})", self.leaf(x)),
            Lit(v) => (*self.s.pick(v)).into(),
        }
    }

    pub fn cond(&mut self, d: usize) -> String {
        if d == 0 {
            return match self.s.n(3) {
                0 => format!("cond({})", self.s.n(6)),
                _ => self.var_of(&Bool).unwrap_or_else(|| format!("cond({})", 3)),
            };
        }
        match self.s.n(9) {
            // The value is an int, as False == 0 is considered to be impossible.
            0 => format!("({} + 0 {} {} + 0)", self.e(&Int, d - 1), *self.s.pick(&["<", "<=", "==", "!=", ">"]), self.e(&Int, d - 1)),
            1 => format!("(not {})", self.cond(d - 1)),
            2 => format!("({} and {})", self.cond(d - 1), self.cond(d - 1)),
            3 => format!("({} or {})", self.cond(d - 1), self.cond(d - 1)),
            4 => format!("({} in {})", self.e(&Int, d - 1), self.e(&List(Box::new(Int)), d - 1)),
            5 => format!("bool({})", self.e(&Int, d - 1)),
            6 => format!("({}).startswith({})", self.e(&Str, d - 1), self.e(&Str, d - 1)),
            7 => format!("any({})", self.e(&List(Box::new(Bool)), d - 1)),
            _ => format!("cond({})", self.e(&Int, d - 1)),
        }
    }

    fn call(&mut self, f: &Func, d: usize) -> String {
        let mut args = vec![];
        let mut kw = false;
        for (n, t, opt) in &f.params {
            if *opt && self.s.coin() {
                kw = true;
                continue;
            }
            let e = self.e(t, d);
            if kw || self.s.chance(1, 5) {
                kw = true;
                args.push(format!("{n}={e}"));
            } else {
                args.push(e);
            }
        }
        format!("{}({})", f.name, args.join(", "))
    }

    fn block(&mut self, n: usize) {
        self.ind += 1;
        let keep = self.vars.len();
        let keep_f = self.funcs.len();
        for _ in 0..n.max(1) {
            self.stmt();
        }
        self.vars.truncate(keep);
        self.funcs.truncate(keep_f);
        self.ind -= 1;
    }
    fn small(&mut self) {
        let n = self.s.range(1, 2);
        self.block(n);
    }

    pub fn program(&mut self, n: usize) {
        for _ in 0..n {
            self.stmt();
        }
    }

    pub fn stmt(&mut self) {
        self.budget -= 1;
        let big = self.budget > 0 && self.ind < 4;
        let top = if self.ret.is_some() { 0 } else { 4 };
        let w: [u32; 24] = if big {
            [8, 6, 6, 9, 3, 3, top, 3, 2, 3, 2, 3, 2, 2, 2, 3, 2, 3, 2, 3, top, 2, 2, 2]
        } else {
            [8, 6, 6, 0, 0, 0, 0, 0, 2, 0, 2, 3, 0, 2, 0, 1, 1, 2, 0, 3, 0, 2, 0, 0]
        };
        match self.s.weighted(&w) {
            0 => self.declare(),
            1 => {
                let v = self.fresh("v");
                let t = self.ty(2);
                let e = self.e(&t, 2);
                self.line(format!("{v} = {e}"));
                self.show(&v);
            }
            2 => {
                let t = self.ty(2);
                let e = self.e(&t, 3);
                self.show(&e);
            }
            3 => self.narrow(),
            4 => self.looping(),
            5 => self.ifs(),
            6 => self.function(),
            7 => self.trying(),
            8 => self.assign(),
            9 => self.matching(),
            10 => self.unpack(),
            11 => self.untyped_use(),
            12 => {
                let v = self.fresh("c");
                let t = Class("C");
                let e = self.e(&t, 1);
                self.line(format!("with {e} as {v}:"));
                let keep = self.vars.len();
                self.vars.push(Var { name: v.clone(), ty: Class("A"), declared: false });
                self.ind += 1;
                self.show(&v);
                self.ind -= 1;
                self.small();
                self.vars.truncate(keep);
            }
            13 => self.partial(),
            14 => self.comprehension(),
            15 => self.place(),
            16 => self.assert_or_walrus(),
            17 => self.functional(),
            18 => self.tagged(),
            19 => self.boolop(),
            20 => self.klass(),
            21 => self.starcall(),
            22 => self.closure(),
            _ => self.while_narrow(),
        }
    }

    fn declare(&mut self) {
        let v = self.fresh("v");
        let t = self.ty(2);
        let e = self.e(&t, 2);
        self.line(format!("{v}: {} = {e}", t.ann()));
        self.show(&v);
        self.vars.push(Var { name: v, ty: t, declared: true });
    }
    fn assign(&mut self) {
        // Only in the scope where the variable was made: functions get no outer variables
        // Loops are analysed once, a value of the last iteration is not expected at their start
        // (a known finding): What a loop assigns is not narrowed before.
        let c: Vec<usize> = (0..self.vars.len())
            .filter(|i| self.vars[*i].declared && !matches!(&self.vars[*i].ty, t if t.needs_context(false)) && (*i >= self.loop_base || matches!(self.vars[*i].ty, Int | Str | Float | List(_) | Dict(..))))
            .collect();
        if c.is_empty() {
            return self.declare();
        }
        let v = self.vars[c[self.s.n(c.len())]].clone();
        let e = self.e(&v.ty, 2);
        match v.ty {
            Int | Str | Float if self.s.coin() => {
                let e = self.e(&v.ty, 1);
                self.line(format!("{} += {e}", v.name))
            }
            _ => self.line(format!("{} = {e}", v.name)),
        }
        self.show(&v.name);
    }
    fn ifs(&mut self) {
        let c = self.cond(2);
        self.line(format!("if {c}:"));
        self.small();
        if self.s.chance(1, 3) {
            let c = self.cond(1);
            self.line(format!("elif {c}:"));
            self.small();
        }
        if self.s.coin() {
            self.line("else:");
            self.small();
        }
        self.show_some();
    }
    fn show_some(&mut self) {
        let c: Vec<usize> = (0..self.vars.len()).filter(|i| self.vars[*i].declared).collect();
        if !c.is_empty() {
            let v = self.vars[c[self.s.n(c.len())]].name.clone();
            self.show(&v);
        }
    }

    /// A test of the value of an expression, with the types that remain for either outcome.
    fn narrow(&mut self) {
        let (v, t) = match self.any_var(|t| matches!(t, Union(_) | Lit(_) | Class("E") | Bool)) {
            Some(x) if self.s.chance(3, 4) => x,
            _ => {
                let v = self.fresh("u");
                let t = match self.s.n(6) {
                    0 => Lit(vec!["1", "2", "'a'", "b'x'"][..self.s.range(1, 4)].to_vec()),
                    1 => Class("E"),
                    _ => match self.union(1) {
                        None => Class("E"),
                        t => t,
                    },
                };
                let e = self.e(&t, 2);
                // The declared type is kept by a function, as the assignment narrows it.
                if self.s.coin() {
                    self.line(format!("{v}: {} = ident({e})", t.ann()));
                } else {
                    self.line(format!("def f{v}(p: {}) -> {}: return p", t.ann(), t.ann()));
                    self.line(format!("{v} = f{v}({e})"));
                }
                self.vars.push(Var { name: v.clone(), ty: t.clone(), declared: true });
                (v, t)
            }
        };
        let test = self.test(&v, &t);
        match self.s.n(8) {
            0..=3 => {
                self.line(format!("if {test}:"));
                self.ind += 1;
                self.show(&v);
                self.ind -= 1;
                if self.s.coin() {
                    self.narrowed_block(&v);
                }
                if self.s.chance(1, 3) {
                    let test2 = self.test(&v, &t);
                    self.line(format!("elif {test2}:"));
                    self.ind += 1;
                    self.show(&v);
                    self.ind -= 1;
                }
                self.line("else:");
                self.ind += 1;
                self.show(&v);
                self.ind -= 1;
            }
            4 => {
                self.line(format!("reveal_type({v} if {test} else repr({v}))"));
            }
            5 => {
                let test2 = self.test(&v, &t);
                let op = *self.s.pick(&["and", "or"]);
                self.line(format!("if {test} {op} {test2}:"));
                self.ind += 1;
                self.show(&v);
                self.ind -= 1;
                self.line("else:");
                self.ind += 1;
                self.show(&v);
                self.ind -= 1;
            }
            6 => {
                let w = self.fresh("i");
                self.line(format!("reveal_type([{w} for {w} in [{v}] if {}])", test.replace(&v, &w)));
            }
            _ => {
                if self.ret.is_some() {
                    self.line(format!("if {test}:"));
                    self.ind += 1;
                    self.show(&v);
                    self.ret_stmt();
                    self.ind -= 1;
                } else if self.in_loop {
                    self.line(format!("if {test}:"));
                    self.ind += 1;
                    let b = *self.s.pick(&["break", "continue"]);
                    self.line(b);
                    self.ind -= 1;
                } else {
                    self.line(format!("if {test}:"));
                    self.narrowed_block(&v);
                }
            }
        }
        self.show(&v);
    }
    fn narrowed_block(&mut self, v: &str) {
        self.ind += 1;
        let keep = self.vars.len();
        let keep_f = self.funcs.len();
        match self.s.n(3) {
            0 => {
                let n = self.fresh("v");
                self.line(format!("{n} = {v}"));
                self.show(&n);
            }
            1 => self.assign(),
            _ => self.stmt(),
        }
        self.show(v);
        self.vars.truncate(keep);
        self.funcs.truncate(keep_f);
        self.ind -= 1;
    }

    fn test(&mut self, v: &str, t: &Ty) -> String {
        let ms = t.members();
        for _ in 0..6 {
            match self.s.n(9) {
                0 | 1 if ms.contains(&None) => return format!("{v} {} None", *self.s.pick(&["is", "is not"])),
                2 | 3 => {
                    let cs: Vec<String> = ms.iter().filter_map(|m| m.class()).filter(|c| c != "float").collect();
                    if !cs.is_empty() {
                        let c = self.s.pick(&cs).clone();
                        let not = if self.s.chance(1, 4) { "not " } else { "" };
                        if self.s.chance(1, 3) {
                            let e = (*self.s.pick(&["int", "str", "A", "B", "E", "bool"])).to_string();
                            return format!("{not}isinstance({v}, ({c}, {e}))");
                        }
                        return format!("{not}isinstance({v}, {c})");
                    }
                }
                4 => return v.to_string(),
                5 => return format!("not {v}"),
                6 => match t {
                    Lit(l) => {
                        let x = *self.s.pick(l);
                        if matches!(x, "True" | "False") {
                            return format!("{v} is {x}");
                        }
                        return match self.s.n(3) {
                            0 => format!("{v} == {x}"),
                            1 => format!("{v} != {x}"),
                            _ => format!("{v} in ({x}, 'zz')"),
                        };
                    }
                    Class("E") => return format!("{v} {} E.{}", *self.s.pick(&["is", "is not", "==", "!="]), *self.s.pick(&["P", "Q", "R"])),
                    Bool => return format!("{v} is {}", *self.s.pick(&["True", "False"])),
                    _ => {}
                },
                7 => {
                    let cs: Vec<String> = ms.iter().filter_map(|m| m.class()).filter(|c| c != "float" && c != "bool").collect();
                    if !cs.is_empty() {
                        let c = self.s.pick(&cs).clone();
                        return format!("type({v}) {} {c}", *self.s.pick(&["is", "==", "is not", "!="]));
                    }
                }
                8 if !ms.iter().any(|m| matches!(m, Lit(_))) && !self.vars.iter().any(|x| x.declared && x.name == *v) => return format!("callable({v})"),
                _ => {}
            }
        }
        v.to_string()
    }

    fn looping(&mut self) {
        let was = self.in_loop;
        let was_base = std::mem::replace(&mut self.loop_base, self.vars.len());
        match self.s.n(5) {
            0 => {
                let i = self.fresh("n");
                self.line(format!("{i} = 0"));
                let c = self.cond(1);
                let l = format!("while {i} < {} and ({c} or {i} < 2):", self.s.n(4));
                self.line(l);
                self.ind += 1;
                self.line(format!("{i} += 1"));
                self.show_some();
                self.ind -= 1;
                self.in_loop = true;
                self.small();
            }
            1 => {
                let i = self.fresh("n");
                self.line(format!("{i} = 0"));
                self.line("while True:");
                self.ind += 1;
                self.line(format!("{i} += 1"));
                self.show_some();
                self.ind -= 1;
                self.in_loop = true;
                self.small();
                self.ind += 1;
                let l = format!("if {i} > {}:", self.s.n(4));
                self.line(l);
                self.line("    break");
                self.ind -= 1;
                self.in_loop = was;
                self.loop_base = was_base;
                self.show_some();
                return;
            }
            _ => {
                let i = self.fresh("x");
                let (t, e) = match self.s.n(6) {
                    0 => (Int, format!("range({})", self.s.n(4))),
                    1 => (Int, format!("gen({})", self.s.n(4))),
                    2 => (Int, "C()".to_string()),
                    3 => {
                        let k = self.hashable();
                        let v = self.simple();
                        let e = self.e(&Dict(Box::new(k.clone()), Box::new(v.clone())), 2);
                        match self.s.n(3) {
                            0 => (k, e),
                            1 => (v, format!("{e}.values()")),
                            _ => (Tup(vec![k, v]), format!("{e}.items()")),
                        }
                    }
                    4 => {
                        let t = self.ty(1);
                        (Tup(vec![Int, t.clone()]), format!("enumerate({})", self.e(&List(Box::new(t)), 2)))
                    }
                    _ => {
                        let t = self.ty(1);
                        (t.clone(), self.e(&List(Box::new(t)), 2))
                    }
                };
                let mut vars = vec![];
                let target = match &t {
                    Tup(ts) if ts.len() == 2 && self.s.chance(2, 3) => {
                        let j = self.fresh("x");
                        vars.push((i.clone(), ts[0].clone()));
                        vars.push((j.clone(), ts[1].clone()));
                        format!("{i}, {j}")
                    }
                    _ => {
                        vars.push((i.clone(), t.clone()));
                        i.clone()
                    }
                };
                self.line(format!("for {target} in {e}:"));
                self.ind += 1;
                for (n, _) in &vars {
                    self.show(&n.clone());
                }
                self.show_some();
                self.ind -= 1;
                let keep = self.vars.len();
                for (n, t) in vars {
                    self.vars.push(Var { name: n, ty: t, declared: false });
                }
                self.in_loop = true;
                self.small();
                self.vars.truncate(keep);
            }
        }
        self.loop_base = was_base;
        self.in_loop = was;
        if self.s.chance(1, 4) {
            self.line("else:");
            self.small();
        }
        self.show_some();
    }

    fn trying(&mut self) {
        self.line("try:");
        self.small();
        self.ind += 1;
        if self.s.chance(1, 3) {
            let c = self.cond(1);
            self.line(format!("if {c}:"));
            let l = format!("    raise {}", *self.s.pick(&["ValueError('x')", "KeyError", "RuntimeError()"]));
            self.line(l);
        } else if self.s.coin() {
            let e = self.e(&Int, 2);
            self.show(&e);
        }
        self.ind -= 1;
        let fin = self.s.chance(1, 4);
        if !fin || self.s.coin() {
            let v = self.fresh("e");
            match self.s.n(3) {
                0 => self.line("except Exception:"),
                1 => {
                    self.line(format!("except (ValueError, KeyError) as {v}:"));
                    self.ind += 1;
                    self.show(&v);
                    self.ind -= 1;
                }
                _ => {
                    self.line(format!("except ZeroDivisionError as {v}:"));
                    self.ind += 1;
                    self.show(&v);
                    self.ind -= 1;
                }
            }
            self.ind += 1;
            self.show_some();
            self.ind -= 1;
            self.small();
            if self.s.chance(1, 3) {
                self.line("else:");
                self.small();
            }
        }
        if fin {
            // What was narrowed at the end of the try block is narrowed here, a known finding
            let vars = std::mem::take(&mut self.vars);
            let base = std::mem::replace(&mut self.loop_base, 0);
            self.line("finally:");
            self.small();
            self.vars = vars;
            self.loop_base = base;
        }
        self.show_some();
    }

    fn matching(&mut self) {
        let t = match self.s.n(4) {
            0 => Tup(vec![self.union(1), self.simple()]),
            1 => Class(*self.s.pick(&["E", "D", "N", "A"])),
            2 => Lit(vec!["1", "2", "'a'", "b'x'"]),
            _ => self.union(1),
        };
        let v = self.fresh("u");
        let e = self.e(&t, 2);
        self.line(format!("{v}: {} = ident({e})", t.ann()));
        self.line(format!("match {v}:"));
        self.ind += 1;
        let n = self.s.range(1, 4);
        let ms = t.members();
        for _ in 0..n {
            let m = ms[self.s.n(ms.len())].clone();
            let mut caps = vec![];
            let p = self.pattern(&m, &mut caps, 1);
            let guard = if self.s.chance(1, 5) { format!(" if {}", self.cond(1)) } else { String::new() };
            self.line(format!("case {p}{guard}:"));
            self.ind += 1;
            self.show(&v);
            for c in caps {
                self.show(&c);
            }
            self.ind -= 1;
        }
        if self.s.coin() {
            let c = self.fresh("q");
            let l = if self.s.coin() { "case _:".to_string() } else { format!("case {c}:") };
            self.line(l);
            self.ind += 1;
            self.show(&v);
            self.ind -= 1;
        }
        self.ind -= 1;
        self.show(&v);
    }
    fn pattern(&mut self, t: &Ty, caps: &mut Vec<String>, d: usize) -> String {
        if d == 0 && self.s.coin() {
            let c = self.fresh("q");
            caps.push(c.clone());
            return c;
        }
        let p = match t {
            None => "None".into(),
            Bool if self.s.coin() => (*self.s.pick(&["True", "False"])).into(),
            Lit(v) => (*self.s.pick(v)).into(),
            Class("E") => format!("E.{}", *self.s.pick(&["P", "Q", "R"])),
            Class("D") if d > 0 => format!("D(a={})", self.pattern(&Int, caps, d - 1)),
            Class("N") if d > 0 => {
                let a = self.pattern(&Int, caps, d - 1);
                let b = self.pattern(&Str, caps, d - 1);
                if self.s.coin() { format!("N({a}, {b})") } else { format!("({a}, {b})") }
            }
            Tup(ts) if d > 0 => {
                let v: Vec<String> = ts.iter().map(|x| {
                    let ms = x.members();
                    let m = self.s.pick(&ms).clone();
                    self.pattern(&m, caps, d - 1)
                }).collect();
                format!("[{}]", v.join(", "))
            }
            List(x) if d > 0 => {
                let a = self.pattern(x, caps, d - 1);
                match self.s.n(3) {
                    0 => format!("[{a}]"),
                    1 => {
                        let r = self.fresh("q");
                        caps.push(r.clone());
                        format!("[{a}, *{r}]")
                    }
                    _ => format!("[{a}, *_]"),
                }
            }
            Dict(k, v) if d > 0 => {
                let key = self.leaf(k);
                format!("{{{key}: {}}}", self.pattern(v, caps, d - 1))
            }
            Int if self.s.chance(1, 3) => self.s.n(4).to_string(),
            Str if self.s.chance(1, 3) => "'a'".into(),
            Int | Str | Bool | Bytes if self.s.chance(1, 3) && d > 0 => {
                format!("{}({})", t.class().unwrap(), self.pattern(t, caps, 0))
            }
            Float | Union(_) => return if d > 0 { "float()".into() } else { "_".into() },
            t => format!("{}()", t.class().unwrap()),
        };
        if self.s.chance(1, 4) {
            let c = self.fresh("q");
            caps.push(c.clone());
            return format!("{p} as {c}");
        }
        p
    }

    /// Narrowing of attributes, items and parts of tuples.
    fn place(&mut self) {
        let v = self.fresh("u");
        let (e, place, t) = match self.s.n(6) {
            0 => (self.e(&Class("A"), 1), format!("{v}.o"), Union(vec![Str, None])),
            1 => (self.e(&Class("D"), 1), format!("{v}.b"), Union(vec![Str, None])),
            2 => {
                let t = self.union(1);
                let o = self.simple();
                let e = self.e(&Tup(vec![o, t.clone()]), 2);
                (format!("ident({e})"), format!("{v}[1]"), t)
            }
            3 => {
                let t = self.union(1);
                let e = self.e(&t, 1);
                let vt = Dict(Box::new(Str), Box::new(t.clone()));
                self.line(format!("{v}: {} = {{'k': {e}}}", vt.ann()));
                (String::new(), format!("{v}['k']"), t)
            }
            4 => {
                let t = self.union(1);
                let e = self.e(&t, 1);
                self.line(format!("{v}: Box[{}] = Box({e})", t.ann()));
                (String::new(), format!("{v}.v"), t)
            }
            _ => {
                let q = self.e(&Union(vec![Str, None]), 1);
                self.line(format!("{v}: TD = {{'p': {}, 'q': {q}}}", 3));
                (String::new(), format!("{v}['q']"), Union(vec![Str, None]))
            }
        };
        if !e.is_empty() {
            self.line(format!("{v} = {e}"));
        }
        let test = self.test(&place, &t);
        self.line(format!("if {test}:"));
        self.ind += 1;
        self.show(&place);
        if self.s.chance(1, 3) && !place.ends_with(']') {
            let e = self.e(&t, 1);
            self.line(format!("{place} = {e}"));
            self.show(&place);
        }
        self.ind -= 1;
        self.line("else:");
        self.ind += 1;
        self.show(&place);
        self.ind -= 1;
        self.show(&place);
    }

    fn assert_or_walrus(&mut self) {
        let v = self.fresh("u");
        let t = self.union(1);
        let e = self.e(&t, 2);
        if self.s.coin() {
            let test = self.test(&v, &t);
            self.line(format!("{v}: {} = ident({e})", t.ann()));
            let c = self.fresh("t");
            self.line("try:");
            self.line(format!("    assert {test}"));
            self.line(format!("    reveal_type({v})"));
            self.line("except AssertionError:");
            self.line(format!("    {c} = {v}"));
            self.line(format!("    reveal_type({c})"));
            return;
        }
        let w = self.fresh("w");
        let test = match self.s.n(3) {
            0 => format!("({w} := {e}) is not None"),
            1 => format!("({w} := {e})"),
            _ => format!("isinstance({w} := {e}, (int, str))"),
        };
        self.line(format!("if {test}:"));
        self.line(format!("    reveal_type({w})"));
        self.line("else:");
        self.line(format!("    reveal_type({w})"));
        self.show(&w);
    }

    fn functional(&mut self) {
        let t = self.simple();
        self.no_walrus += 1;
        let l = self.e(&List(Box::new(t.clone())), 2);
        self.no_walrus -= 1;
        let q = self.fresh("q");
        let r = self.ty(1);
        self.vars.push(Var { name: q.clone(), ty: t.clone(), declared: false });
        self.no_walrus += 1;
        let b = self.e(&r, 1);
        self.no_walrus -= 1;
        self.vars.pop();
        let x = match self.s.n(18) {
            0 => format!("list(map(lambda {q}: {b}, {l}))"),
            1 => format!("list(filter(None, {l}))"),
            2 => format!("list(zip({l}, gen(3)))"),
            3 => format!("sorted({l}, key=lambda {q}: 1)"),
            4 => format!("max({l}, key=lambda {q}: 1)"),
            5 => format!("dict(zip(['a', 'b'], {l}))"),
            6 => format!("list(reversed({l}))"),
            7 => format!("list(enumerate({l}))"),
            8 => format!("[{b} for {q} in {l} for i{q} in range(2) if cond(i{q})]"),
            9 => format!("{{'a': {l}}}.get('a')"),
            10 => format!("{{'a': {l}}}.pop('a', None)"),
            11 => format!("{{'a': {l}}}.setdefault('b', [])"),
            12 => format!("{l}[::-1]"),
            13 => format!("deco(lambda {q}: {b})({l}[0])"),
            14 => format!("over({})", *self.s.pick(&["1", "'a'", "None"])),
            15 => format!("tuple({b} for {q} in {l})"),
            16 => format!("min({l}, default=None, key=lambda {q}: 0)"),
            _ => format!("list({{'a': {l}}}.items())"),
        };
        self.show(&x);
    }

    fn tagged(&mut self) {
        let v = self.fresh("u");
        let e = *self.s.pick(&["K1()", "K2()", "K3()"]);
        self.line(format!("{v}: K1 | K2 = ident({e})"));
        match self.s.n(4) {
            0 => {
                let op = *self.s.pick(&["==", "!=", "is"]);
                let l = *self.s.pick(&["'a'", "'b'"]);
                self.line(format!("if {v}.kind {op} {l}:"));
            }
            1 => self.line(format!("if isinstance({v}, K3):")),
            2 => self.line(format!("if hasattr({v}, 'one'):")),
            _ => {
                self.line(format!("match {v}:"));
                let k = *self.s.pick(&["K1(kind='a')", "K2(kind='b')", "K3()", "K1(one=1)"]);
                self.line(format!("    case {k}:"));
                self.line(format!("        reveal_type({v})"));
                self.line("    case _:");
                self.line(format!("        reveal_type({v})"));
                return self.show(&v);
            }
        }
        self.line(format!("    reveal_type({v})"));
        self.line("else:");
        self.line(format!("    reveal_type({v})"));
        self.show(&v);
    }

    fn boolop(&mut self) {
        let a = self.ty(1);
        let b = self.simple();
        // The left side is the expected type of the right side
        let (x, y) = (self.e(&a, 2), self.leaf(&b));
        let op = *self.s.pick(&["and", "or"]);
        let e = if self.s.chance(1, 3) {
            let c = self.simple();
            let z = self.leaf(&c);
            format!("{x} {op} {y} {} {z}", *self.s.pick(&["and", "or"]))
        } else {
            format!("{x} {op} {y}")
        };
        self.show(&e);
    }

    /// A class with attributes whose types are inferred.
    fn klass(&mut self) {
        let outer = std::mem::take(&mut self.vars);
        let name = self.fresh("Z");
        let base = *self.s.pick(&["", "(A)", "(K1)"]);
        let t1 = self.ty(1);
        let t2 = self.ty(1);
        let t3 = self.ty(1);
        let e2 = self.e(&t2, 2);
        self.line(format!("class {name}{base}:"));
        self.ind += 1;
        self.line(format!("c1 = {e2}"));
        self.line(format!("def __init__(self, a: {}) -> None:", t1.ann()));
        if base == "(A)" {
            self.line("    super().__init__(5)");
        }
        self.line("    self.a = a");
        let e3 = self.e(&t3, 2);
        self.line(format!("    self.b = {e3}"));
        let e3 = self.e(&t3, 1);
        self.line(format!("    self.c: {} = {e3}", t3.ann()));
        let test = self.test("self.c", &t3);
        self.line("def m1(self):");
        self.line(format!("    if {test}:"));
        self.line("        reveal_type(self.c)");
        self.line("        return self.a");
        self.line("    reveal_type(self.c)");
        self.line("    return self.b");
        self.line("@property");
        self.line("def pr(self):");
        self.line("    return (self.a, self.c1)");
        self.line("@classmethod");
        self.line(format!("def cm(cls, a: {}):", t1.ann()));
        self.line("    return cls(a)");
        self.line("def __eq__(self, other: object) -> bool:");
        self.line("    reveal_type(other)");
        self.line(format!("    return isinstance(other, {name}) and reveal_type(other).a is self.a"));
        self.line("def __lt__(self, other: int):");
        let e = self.e(&t2, 1);
        self.line(format!("    return {e}"));
        self.ind -= 1;
        self.vars = outer;
        let e1 = self.e(&t1, 2);
        let o = self.fresh("o");
        self.line(format!("{o} = {name}({e1})"));
        self.show(&o);
        for a in ["a", "b", "c", "c1", "m1()", "pr"] {
            if self.s.coin() {
                self.show(&format!("{o}.{a}"));
            }
        }
        let e1 = self.e(&t1, 1);
        self.show(&format!("{name}.cm({e1})"));
        self.show(&format!("{o} == {name}.cm({e1})"));
        self.show(&format!("{o} < 3"));
        let sub = self.fresh("Z");
        self.line(format!("class {sub}({name}):"));
        self.line("    def m1(self):");
        self.line("        return super().m1()");
        self.show(&format!("{sub}({e1}).m1()"));
        self.show(&format!("{sub}.cm({e1}).pr"));
    }

    fn starcall(&mut self) {
        let t = [self.simple(), self.simple()];
        let e = self.e(&Tup(t.to_vec()), 2);
        let x = match self.s.n(6) {
            0 => format!("pair(*{e})"),
            1 => format!("C()(*{})", self.e(&Tup(vec![Int, Str]), 1)),
            2 => format!("pair(**{{'b': {}, 'a': {}}})", self.e(&Int, 1), self.e(&Int, 1)),
            3 => format!("(*{e}, {})", self.e(&Int, 1)),
            4 => format!("[*{e}]"),
            _ => format!("pair(b={}, a={})", self.e(&t[0], 1), self.e(&t[1], 1)),
        };
        self.show(&x);
    }

    fn closure(&mut self) {
        let outer = std::mem::take(&mut self.vars);
        let outer_f = self.funcs.clone();
        let f = self.fresh("f");
        let (v, g) = (self.fresh("v"), self.fresh("g"));
        let t = self.union(1);
        let u = self.ty(1);
        self.line(format!("def {f}():"));
        self.ind += 1;
        let e = self.e(&t, 1);
        self.line(format!("{v}: {} = {e}", t.ann()));
        let un = self.e(&u, 2);
        self.line(format!("def {g}(q: {} = {un}):", u.ann()));
        self.ind += 1;
        self.line(format!("nonlocal {v}"));
        self.show(&v);
        let e = self.e(&t, 1);
        self.line(format!("{v} = {e}"));
        self.show(&v);
        self.line("return q");
        self.ind -= 1;
        self.show(&format!("{g}()"));
        let e = self.e(&t, 1);
        self.line(format!("return {g}, ident({e})"));
        self.ind -= 1;
        self.vars = outer;
        self.funcs = outer_f;
        self.show(&format!("{f}()[1]"));
        self.show(&format!("{f}()[0]()"));
    }

    fn while_narrow(&mut self) {
        let v = self.fresh("u");
        let n = self.fresh("n");
        let t = self.union(1);
        let e = self.e(&t, 2);
        self.line(format!("{v}: {} = {e}", t.ann()));
        self.line(format!("{n} = 0"));
        let test = self.test(&v, &t);
        self.line(format!("while {test}:"));
        self.ind += 1;
        self.show(&v);
        self.line(format!("{n} += 1"));
        self.line(format!("if {n} > {}:", 3));
        let b = *self.s.pick(&["break", "break", "raise ValueError(1)"]);
        self.line(format!("    {b}"));
        let e = self.e(&t, 1);
        if self.s.coin() {
            let c = self.cond(1);
            self.line(format!("if {c}:"));
            self.line(format!("    {v} = {e}"));
            if self.s.coin() {
                self.line("    continue");
            }
        } else {
            self.line(format!("{v} = {e}"));
        }
        self.show(&v);
        self.ind -= 1;
        if self.s.coin() {
            self.line("else:");
            self.line(format!("    reveal_type({v})"));
        }
        self.show(&v);
    }

    fn unpack(&mut self) {
        let a = self.fresh("v");
        let b = self.fresh("v");
        match self.s.n(4) {
            0 => {
                let t = Tup(vec![self.ty(1), self.ty(1)]);
                let e = self.e(&t, 2);
                self.line(format!("{a}, {b} = {e}"));
            }
            1 => {
                let x = self.ty(1);
                let t = List(Box::new(x));
                let e = self.e(&t, 2);
                self.line(format!("{a}, *{b} = {e}"));
            }
            2 => {
                let t = Tup(vec![self.simple(), self.simple(), self.simple()]);
                let e = self.e(&t, 2);
                self.line(format!("[*{a}, {b}] = {e}"));
            }
            _ => {
                let t = self.ty(2);
                let e = self.e(&t, 2);
                self.line(format!("{a} = {b} = {e}"));
            }
        }
        self.show(&a);
        self.show(&b);
    }

    fn partial(&mut self) {
        let v = self.fresh("v");
        let t = self.ty(1);
        let e = self.e(&t, 1);
        match self.s.n(5) {
            0 => {
                self.line(format!("{v} = []"));
                self.line(format!("{v}.append({e})"));
            }
            1 => {
                let k = self.hashable();
                let k = self.e(&k, 1);
                self.line(format!("{v} = {{}}"));
                self.line(format!("{v}[{k}] = {e}"));
            }
            2 => {
                let c = self.cond(1);
                self.line(format!("{v} = None"));
                self.line(format!("if {c}:"));
                self.line(format!("    {v} = {e}"));
            }
            3 => {
                let k = self.hashable();
                let k = self.e(&k, 1);
                self.line(format!("{v} = set()"));
                self.line(format!("{v}.add({k})"));
            }
            _ => {
                let c = self.cond(1);
                self.line(format!("if {c}:"));
                self.line(format!("    {v} = {e}"));
                self.line("else:");
                // tuple([..]) expects the items of the first tuple, a known finding
                let e = if matches!(t, VarTup(_)) { self.leaf(&t) } else { self.e(&t, 1) };
                self.line(format!("    {v} = {e}"));
            }
        }
        self.show(&v);
    }

    fn comprehension(&mut self) {
        self.no_walrus += 1;
        let x = self.fresh("x");
        let t = self.ty(1);
        let it = self.e(&List(Box::new(t.clone())), 2);
        let keep = self.vars.len();
        self.vars.push(Var { name: x.clone(), ty: t.clone(), declared: false });
        let rt = self.ty(1);
        let el = match self.s.n(3) {
            0 => x.clone(),
            1 => self.e(&rt, 1),
            _ => format!("({x}, {})", self.e(&rt, 1)),
        };
        let c = match self.s.n(3) {
            0 => String::new(),
            1 => format!(" if {}", self.test(&x, &t)),
            _ => format!(" if {}", self.cond(1)),
        };
        self.vars.truncate(keep);
        let text = match self.s.n(4) {
            0 => format!("[{el} for {x} in {it}{c}]"),
            1 => format!("list({el} for {x} in {it}{c})"),
            2 => format!("{{str({x}): {el} for {x} in {it}{c}}}"),
            _ => format!("next(({el} for {x} in {it}{c}), None)"),
        };
        self.no_walrus -= 1;
        self.show(&text);
    }

    fn untyped_use(&mut self) {
        let c: Vec<Func> = self.funcs.clone();
        if c.is_empty() {
            let v = self.fresh("v");
            let e = self.e(&Class("C"), 1);
            let l = format!("{v} = {e}({}, {})", self.s.n(4), "'q'");
            self.line(l);
            return self.show(&v);
        }
        let f = self.s.pick(&c).clone();
        let e = self.call(&f, 1);
        self.show(&e);
    }

    fn ret_stmt(&mut self) {
        let r = self.ret.clone().unwrap();
        match r {
            Some(t) => {
                let e = self.e(&t, 2);
                self.line(format!("return {e}"));
            }
            Option::None => {
                if self.s.chance(1, 5) {
                    self.line("return");
                } else {
                    let t = self.ty(1);
                    let e = self.e(&t, 1);
                    self.line(format!("return {e}"));
                }
            }
        }
    }

    fn function(&mut self) {
        let name = self.fresh("f");
        let n = self.s.n(4);
        let mut params = vec![];
        let mut opt = false;
        for _ in 0..n {
            let p = self.fresh("p");
            let t = self.ty(1);
            opt |= self.s.chance(1, 3);
            params.push((p, t, opt));
        }
        let generator = self.s.chance(1, 6);
        let ret = if generator || self.s.coin() { Option::None } else { Some(self.ty(1)) };
        let mut sig = vec![];
        let outer = std::mem::take(&mut self.vars);
        let outer_f = self.funcs.clone();
        for (p, t, opt) in &params {
            sig.push(if *opt { format!("{p}: {} = {}", t.ann(), self.leaf(t)) } else { format!("{p}: {}", t.ann()) });
        }
        let mut extra = vec![];
        if self.s.chance(1, 5) {
            let a = self.fresh("a");
            sig.push(format!("*{a}: int"));
            extra.push(Var { name: a, ty: VarTup(Box::new(Int)), declared: false });
        }
        if self.s.chance(1, 6) {
            let a = self.fresh("k");
            sig.push(format!("**{a}: str"));
            extra.push(Var { name: a, ty: Dict(Box::new(Str), Box::new(Str)), declared: false });
        }
        let arrow = match &ret {
            Some(t) => format!(" -> {}", t.ann()),
            _ => String::new(),
        };
        self.line(format!("def {name}({}){arrow}:", sig.join(", ")));
        let was_ret = self.ret.replace(ret.clone());
        let was_loop = std::mem::replace(&mut self.in_loop, false);
        for (p, t, _) in &params {
            self.vars.push(Var { name: p.clone(), ty: t.clone(), declared: true });
        }
        self.vars.extend(extra);
        self.ind += 1;
        let vars: Vec<String> = self.vars.iter().map(|v| v.name.clone()).collect();
        for v in vars {
            self.show(&v);
        }
        self.ind -= 1;
        let n = self.s.range(1, 3);
        self.block(n);
        self.ind += 1;
        if generator {
            let t = self.ty(1);
            let e = self.e(&t, 1);
            let y = self.fresh("y");
            self.line(format!("{y} = yield {e}"));
        } else {
            self.ret_stmt();
        }
        self.ind -= 1;
        self.ret = was_ret;
        self.in_loop = was_loop;
        self.vars = outer;
        self.funcs = outer_f;
        self.exports.push((name.clone(), "function".into()));
        let f = Func { name, params, ret: if generator { Option::None } else { ret } };
        let e = self.call(&f, 1);
        self.show(&e);
        if generator {
            let e = self.call(&f, 0);
            self.show(&format!("list({e})"));
        }
        self.funcs.push(f);
    }

    /// Two types without common values, apart from those that int and float or their subclasses share.
    fn disjoint(&mut self) -> (Ty, Ty) {
        fn kind(t: &Ty) -> &'static str {
            match t {
                Int | Bool | Float => "number",
                Str => "str",
                Bytes => "bytes",
                None => "none",
                List(_) => "list",
                Set(_) => "set",
                Dict(..) => "dict",
                Tup(_) | VarTup(_) | Class("N") => "tuple",
                Class("A") | Class("B") => "a",
                Class(c) => c,
                Box_(_) => "box",
                Union(_) | Lit(_) => "other",
            }
        }
        for _ in 0..20 {
            let (a, b) = (self.ty(1), self.ty(1));
            let (ka, kb) = (kind(&a), kind(&b));
            if ka != kb && ka != "other" && kb != "other" {
                return (a, b);
            }
            // Invariant: also the items have to be the same
            if let (List(x), List(y)) | (Set(x), Set(y)) | (Box_(x), Box_(y)) = (&a, &b) {
                let (kx, ky) = (kind(x), kind(y));
                if kx != ky && kx != "other" && ky != "other" {
                    return (a, b);
                }
            }
        }
        (Int, Str)
    }
    /// Writes a statement with a type error in its last line, and returns what has to be reported there.
    pub fn wrong(&mut self) -> &'static str {
        self.precise = true;
        let (a, b) = self.disjoint();
        let v = self.fresh("bad");
        match self.s.n(22) {
            0 | 1 => {
                let e = self.e(&a, 2);
                self.line(format!("{v}: {} = {e}", b.ann()));
                "assignment"
            }
            2 => {
                let e = self.e(&a, 2);
                self.line(format!("def {v}(p: {}) -> None: pass", b.ann()));
                self.line(format!("{v}({e})"));
                "argument"
            }
            3 => {
                let e = self.e(&a, 2);
                self.line(format!("def {v}(q: int, *, p: {}) -> None: pass", b.ann()));
                self.line(format!("{v}(1, p={e})"));
                "keyword argument"
            }
            4 => {
                let e = self.e(&a, 1);
                self.line(format!("def {v}() -> {}: return {e}", b.ann()));
                "return"
            }
            5 => {
                let e = self.e(&a, 2);
                self.line(format!("({e}).no_such_name"));
                "attribute"
            }
            6 => {
                self.line(format!("{v}_undefined"));
                "name"
            }
            7 => {
                let c = *self.s.pick(&["A()", "A(1, 2)", "B()", "N(1)", "D()", "D(1, 'a', 2)", "A.make()", "A(1).m(1, 2)", "pair(1)", "ident()", "cond(1, 2)", "C()()", "A(y=1)", "A(1, x=1)", "gen()", "Box()", "Box(1).get(1)", "A.st()"]);
                self.line(c);
                "call with wrong arguments"
            }
            8 => {
                let t = match self.s.n(6) {
                    0 => Int,
                    1 => Str,
                    2 => List(Box::new(self.simple())),
                    3 => Class("D"),
                    4 => Float,
                    _ => Class("A"),
                };
                let e = self.e(&t, 2);
                self.line(format!("({e})(1)"));
                "call of something that is not callable"
            }
            9 => {
                let o = self.s.n(6);
                let l = match o {
                    0 => format!("{} + {}", self.e(&Int, 1), self.e(&Str, 1)),
                    1 => format!("{} - {}", self.e(&Str, 1), self.e(&Str, 1)),
                    2 => format!("{} + {}", self.e(&Class("D"), 1), self.e(&Int, 1)),
                    3 => format!("{} < {}", self.e(&Str, 1), self.e(&Int, 1)),
                    4 => format!("{} + {}", self.e(&List(Box::new(Int)), 1), self.e(&Tup(vec![Int]), 1)),
                    _ => format!("-{}", self.e(&Str, 1)),
                };
                self.line(l);
                "operator"
            }
            10 => {
                let l = match self.s.n(4) {
                    0 => format!("{}[0]", self.e(&Int, 1)),
                    1 => format!("{}['a']", self.e(&List(Box::new(Int)), 1)),
                    2 => format!("{}[1]", self.e(&Class("A"), 1)),
                    _ => format!("{}['k']", self.e(&Dict(Box::new(Int), Box::new(Str)), 0)),
                };
                self.line(l);
                "index"
            }
            11 => {
                let l = match self.s.n(4) {
                    0 => format!("for {v} in {}: pass", self.e(&Int, 1)),
                    1 => format!("for {v} in {}: pass", self.e(&Class("D"), 1)),
                    2 => format!("{v} = [x for x in {}]", self.e(&Float, 1)),
                    _ => format!("{v}, {v}2 = {}", self.e(&Tup(vec![Int, Str, Int]), 0)),
                };
                self.line(l);
                "iteration"
            }
            12 => {
                // A union has to be narrowed before
                let e = self.e(&Union(vec![Str, None]), 1);
                self.line(format!("def {v}(p: str | None) -> str | None: return p"));
                self.line(format!("{v}({e}).upper()"));
                "attribute of None"
            }
            13 if a != None => {
                let e = self.e(&a, 1);
                self.line(format!("def {v}(p: {} | None) -> None:", a.ann()));
                self.line(format!("    if p is None: reveal_type({e})"));
                self.line(format!("    {v}2: {} = p", a.ann()));
                "a union that is not narrowed"
            }
            14 => {
                let e = self.e(&a, 1);
                self.line(format!("{v}: list[{}] = []", b.ann()));
                self.line(format!("{v}.append({e})"));
                "argument of a generic method"
            }
            15 => {
                let e = self.e(&a, 1);
                self.line(format!("{v}: dict[str, {}] = {{}}", b.ann()));
                self.line(format!("{v}['k'] = {e}"));
                "item assignment"
            }
            16 => {
                let l = (*self.s.pick(&["A(1).x = 'a'", "D(1).b = 3", "B(1).y = 'a'", "A(1).p = 3", "N(1, 'a').a = 2", "D(1).zz = 3", "K1().kind = 'b'"])).to_string();
                self.line(l);
                "attribute assignment"
            }
            17 => {
                self.line(format!("class {v}(A):"));
                let l = (*self.s.pick(&["    def m(self, q: str = '') -> str: return q", "    def m(self, q: int = 1) -> int: return q", "    def m(self) -> str: return ''", "    k: int = 1", "    k = 3"])).to_string();
                self.line(l);
                "override"
            }
            18 => {
                self.line(format!("def {v}(p: int) -> {}:", b.ann()));
                let nothing = b == None;
                let e = self.leaf(&b);
                self.line(format!("    if p: return {e}"));
                if nothing {
                    self.line(format!("    {v}_undefined"));
                    return "name";
                }
                // The function itself is reported
                "missing return"
            }
            19 => {
                let e = self.e(&a, 1);
                self.line(format!("{v} = ident({e})"));
                self.line(format!("{v}2: {} = {v}", b.ann()));
                "assignment of an inferred variable"
            }
            20 => {
                let l = (*self.s.pick(&["u: TD = {'p': 1}", "u: TD = {'p': 'a', 'q': 'b'}", "u: TD = {'p': 1, 'q': None, 'r': 1}", "u: Literal[1, 2] = 3", "u: HasX = D(1)", "u: Callable[[int], str] = len", "over(b'a')", "over(1.5)", "deco(len)(1)"])).to_string();
                self.line(l.replace("u:", &format!("{v}:")));
                "special form"
            }
            _ => {
                let e = self.e(&a, 1);
                self.line(format!("class {v}(Box[{}]):", b.ann()));
                self.line("    def get2(self) -> None:");
                self.line(format!("        self.v = {e}"));
                "inherited generic attribute"
            }
        }
    }

    pub fn export_vars(&mut self) {
        let v: Vec<(String, String)> = self.vars.iter().map(|v| (v.name.clone(), v.ty.ann())).collect();
        self.exports.extend(v);
    }
}
