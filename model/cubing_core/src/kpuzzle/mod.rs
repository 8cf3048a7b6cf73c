mod definition;

pub use definition::KPatternData;
pub use definition::KPatternOrbitData;
pub use definition::KPuzzleDefinition;
pub use definition::KPuzzleOrbitDefinition;
pub use definition::KPuzzleOrbitName;
pub use definition::KTransformationData;
pub use definition::KTransformationOrbitData;

mod packed;
pub use packed::*;

mod json_macros;

pub mod _reexported {
    pub extern crate paste as _paste;
}
