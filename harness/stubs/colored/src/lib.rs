//! Stand-in: no colors.
#[derive(Debug, Clone, Default)]
pub struct ColoredString(String);
impl ColoredString { pub fn clear(self) -> Self { self } }
impl std::fmt::Display for ColoredString { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } }
macro_rules! c { ($($n:ident)*) => { pub trait Colorize { $(fn $n(self) -> ColoredString;)* }
  impl Colorize for &str { $(fn $n(self) -> ColoredString { ColoredString(self.to_string()) })* }
  impl Colorize for String { $(fn $n(self) -> ColoredString { ColoredString(self) })* }
  impl Colorize for ColoredString { $(fn $n(self) -> ColoredString { self })* } } }
c!(red blue green yellow bold bright_red cyan magenta underline);
