use std::fmt;

#[derive(Debug, Default, Clone, PartialEq, Eq)]
pub struct Pause {}

impl Pause {
    pub fn invert(&self) -> Pause {
        Pause {}
    }
}

impl fmt::Display for Pause {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, ".")
    }
}
