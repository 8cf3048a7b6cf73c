mod lib;
pub use lib::*;
