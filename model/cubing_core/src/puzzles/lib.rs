use crate::kpuzzle_from_json_file;

kpuzzle_from_json_file!(pub, cube3x3x3, "./3x3x3.kpuzzle.json");
kpuzzle_from_json_file!(pub, cube2x2x2, "./2x2x2.kpuzzle.json");
