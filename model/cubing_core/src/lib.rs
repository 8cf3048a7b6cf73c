pub mod alg;
pub mod kpuzzle;
pub mod puzzles;
