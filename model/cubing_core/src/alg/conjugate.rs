use std::fmt;
use std::sync::Arc;

use super::Alg;

#[derive(Debug, Clone, PartialEq)]
pub struct Conjugate {
    pub a: Arc<Alg>,
    pub b: Arc<Alg>,
}

impl Conjugate {
    pub fn invert(&self) -> Conjugate {
        Conjugate {
            a: self.a.clone(),
            b: self.b.invert().into(),
        }
    }
}

impl fmt::Display for Conjugate {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(
            f,
            "[{}{}: {}{}]",
            self.a,
            self.a.newline_before_delimiter(),
            self.b,
            self.b.newline_before_delimiter()
        )
    }
}
