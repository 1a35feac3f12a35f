//! Generator of Python programs: token lists plus a layout renderer.
pub mod program;
pub mod render;
pub mod soup;
pub use program::*;
pub use render::*;
pub use soup::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum K {
    /// name or keyword
    Word,
    Num,
    Str,
    Op,
    /// start of an f-string, `f"`
    FStart,
    /// no whitespace may be put before it
    FText,
    FOpen,
    FClose,
    /// conversion or format colon or `=`: no whitespace before
    FSpec,
    FEnd,
    Nl,
    Ind,
    Ded,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tk {
    pub t: String,
    pub k: K,
}

pub fn tk(k: K, t: impl Into<String>) -> Tk {
    Tk { t: t.into(), k }
}
