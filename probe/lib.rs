//! A user of the facade crate's JSON file macros, with two loaders of every kind. It is only ever
//! type-checked (the loaders are compared with those of the reference); nothing here is run.
use cubing::kpuzzle::{kpattern_from_json_file, kpuzzle_from_json_file, ktransformation_from_json_file};

kpuzzle_from_json_file!(pub, first, "./first.json");
kpuzzle_from_json_file!(pub, second, "./second.json");
kpattern_from_json_file!(pub, third, "./third.json", first_kpuzzle());
kpattern_from_json_file!(pub, fourth, "./fourth.json", second_kpuzzle());
ktransformation_from_json_file!(pub, third, "./fifth.json", first_kpuzzle());
ktransformation_from_json_file!(pub, fourth, "./sixth.json", second_kpuzzle());
