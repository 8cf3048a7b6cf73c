use std::fmt;
use std::sync::Arc;

use super::Alg;

#[derive(Debug, Clone, PartialEq)]
pub struct Commutator {
    pub a: Arc<Alg>,
    pub b: Arc<Alg>,
}

impl Commutator {
    pub fn invert(&self) -> Commutator {
        Commutator {
            a: self.b.clone(),
            b: self.a.clone(),
        }
    }
}

impl fmt::Display for Commutator {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(
            f,
            "[{}{}, {}{}]",
            self.a,
            self.a.newline_before_delimiter(),
            self.b,
            self.b.newline_before_delimiter()
        )
    }
}
