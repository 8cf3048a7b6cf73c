mod errors;
pub use errors::*;

mod kpuzzle;
pub use kpuzzle::{
    ConversionError, InvalidAlgError, InvalidDefinitionError, InvalidMoveError, KPuzzle,
    KPuzzleOrbitInfo,
};

mod packed_orbit_data;

mod ktransformation;
pub use ktransformation::{KTransformation, KTransformationBuffer};

mod kpattern;
pub use kpattern::{KPattern, KPatternBuffer};

mod orientation_packer;
pub use orientation_packer::OrientationWithMod;

mod derived_moves_validator;
mod lookup_move;
