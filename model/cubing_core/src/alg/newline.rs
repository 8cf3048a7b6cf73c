use std::fmt;

#[derive(Debug, Default, Clone, PartialEq, Eq)]
pub struct Newline {}

impl Newline {
    pub fn invert(&self) -> Newline {
        Newline {}
    }
}

impl fmt::Display for Newline {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        writeln!(f)
    }
}
