mod alg_node;
pub use alg_node::AlgNode;

mod amount;
pub use amount::Amount;

mod quantum_move;
pub use quantum_move::{MoveLayer, MovePrefix, MoveRange, QuantumMove};

mod r#move;
pub use r#move::Move;

mod pause;
pub use pause::Pause;

mod newline;
pub use newline::Newline;

mod line_comment;
pub use line_comment::LineComment;

#[allow(clippy::module_inception)]
mod alg;
pub use alg::Alg;

mod grouping;
pub use grouping::Grouping;

mod commutator;
pub use commutator::Commutator;

mod conjugate;
pub use conjugate::Conjugate;

mod alg_builder;
pub use alg_builder::AlgBuilder;

mod parse;
pub use parse::AlgParseError;

mod special_notation;
