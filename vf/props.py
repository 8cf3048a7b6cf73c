"""Which functions every property is about (its roots; their callees belong to it too)."""
import fnmatch

ALG_TYPES = ["Alg", "AlgNode", "Move", "MoveLayer", "MoveRange", "MovePrefix", "QuantumMove", "Grouping", "Commutator", "Conjugate", "Pause", "Newline", "LineComment"]
PARSE = ["<Alg as FromStr>::from_str", "<Move as FromStr>::from_str", "<QuantumMove as FromStr>::from_str",
         "<Alg as TryFrom<&str>>::try_from", "<Move as TryFrom<&str>>::try_from", "<QuantumMove as TryFrom<&str>>::try_from"]
SERDE_TEXT = ["<Alg as Deserialize>::*", "<Move as Deserialize>::*", "<QuantumMove as Deserialize>::*",
              "<AlgVisitor as Visitor>::*", "<MoveVisitor as Visitor>::*", "<QuantumMoveVisitor as Visitor>::*",
              "<Alg as Serialize>::*", "<Move as Serialize>::*", "<QuantumMove as Serialize>::*"]
PRINT = ["<%s as Display>::fmt" % t for t in ALG_TYPES] + ["special_family", "fmt_amount", "space_between"]
INVERT = ["%s::invert" % t for t in ALG_TYPES if t not in ("MoveLayer", "MoveRange", "MovePrefix", "QuantumMove")]
ERRORS = ["AlgParseError", "InvalidAlgError", "InvalidMoveError", "InvalidDefinitionError", "InvalidKPatternDataError",
          "InvalidKTransformationDataError", "ConversionError"]
EVAL = ["KPuzzle::transformation_from_alg", "KPuzzle::transformation_from_move", "KPattern::apply_alg", "KPattern::apply_move"]
BUILD = ["KPuzzle::try_new", "KPuzzle::try_from_json", "<KPuzzle as TryFrom<KPuzzleDefinition>>::try_from"]
DATA = ["KPattern::try_from_data", "KPattern::try_from_json", "KPattern::to_data", "KTransformation::try_from_data",
        "KTransformation::try_from_json", "KTransformation::to_data", "KPuzzle::default_pattern"]
PACKED = ["PackedOrbitData::*", "<PackedOrbitData as *", "KPattern::get_*", "KPattern::set_*", "KTransformation::get_*", "KTransformation::set_*"]

# what a map of moves looks at
KEYS = ["<%s as %s" % (t, x) for t in ("Move", "QuantumMove", "MovePrefix", "MoveLayer", "MoveRange") for x in ("PartialEq<*", "Hash>::hash")]
NAMES = ["<KPuzzleOrbitName as PartialEq<*", "<KPuzzleOrbitName as Hash>::hash"]

ROOTS = {
    "C01": PARSE + SERDE_TEXT[:6],
    "C02": PARSE,
    "C03": PARSE + PRINT,
    "C04": PARSE + PRINT + INVERT,
    "C05": INVERT,
    "C06": EVAL,
    "C07": ["KPuzzle::transformation_from_move", "KPattern::apply_move", "lookup_move"] + KEYS,
    "C08": BUILD + ["DerivedMovesValidator::*", "lookup_move", "transformation_from_alg", "transformation_from_alg_node"] + KEYS,
    "C09": ["KPattern::apply_transformation", "KPattern::apply_transformation_into", "KPattern::get_*", "KPattern::set_*", "OrientationPacker::*"],
    "C10": ["KTransformation::apply_transformation", "KTransformation::apply_transformation_into", "KTransformation::invert",
            "KTransformation::self_multiply", "KPuzzle::identity_transformation", "KTransformation::get_*", "KTransformation::set_*"],
    "C11": PACKED + ["KPattern::apply_transformation*", "KTransformation::apply_transformation*", "KTransformation::invert", "KPattern::byte_slice",
                     "KTransformation::byte_slice", "KPattern*Buffer::*", "KTransformation*Buffer::*", "KPuzzle::identity_transformation", "KPattern::packed_orbit_data*",
                     "KTransformation::packed_orbit_data*", "OrientationPacker::*"] + DATA,
    "C12": ["PackedOrbitData::new*", "PackedOrbitData::byte*", "<PackedOrbitData as Clone>::*", "<PackedOrbitData as Drop>::*", "<KPattern as Clone>::*",
            "<KTransformation as Clone>::*", "KPuzzle::try_new", "KPattern::new*", "KTransformation::new*", "KPattern::apply_transformation*",
            "KTransformation::apply_transformation*", "KTransformation::invert", "KPuzzle::identity_transformation", "<KPattern as From*",
            "KPattern::try_from_data", "KTransformation::try_from_data", "<KPatternBuffer as From*", "<KTransformationBuffer as From*"],
    "C13": ["KPattern::get_*", "KPattern::set_*", "KTransformation::get_*", "KTransformation::set_*", "PackedOrbitData::get_*", "PackedOrbitData::set_*"],
    "C14": ["OrientationPacker::*", "OrientationWithMod::*", "KPattern::get_*orientation*", "KPattern::set_*orientation*", "KPuzzle::try_new",
            "KPattern::apply_transformation_into", "<OrientationWithMod as *"],
    "C15": DATA + NAMES + ["KPuzzle::try_new", "KPattern::get_*", "KPattern::set_*", "KTransformation::get_*", "KTransformation::set_*"],
    "C16": ["<* as PartialEq<*", "<* as Hash>::hash"],
    "C17": BUILD + DATA + EVAL + ["KPuzzle::lookup_orbit", "KPuzzle::orbit_info_iter"],
    "C18": ["<%s as *" % e for e in ERRORS] + BUILD + EVAL + PARSE + ["KPattern::try_from_*", "KTransformation::try_from_*"],
    "C19": SERDE_TEXT + PRINT + PARSE + ["<*K* as Serialize>::*", "<*K* as Deserialize>::*", "<<K* as Deserialize>*"],
    "C20": ["cubing_macros::parse_*"] + PARSE,
    "C21": ["cube2x2x2_kpuzzle", "cube3x3x3_kpuzzle"],
    "C22": ["cube2x2x2_kpuzzle*", "cube3x3x3_kpuzzle*", "U_SQ_quantum*", "D_SQ_quantum*", "vf_probe::*"],
    "C23": ["KPatternBuffer::*", "<KPatternBuffer as *", "KTransformationBuffer::*", "<KTransformationBuffer as *"],
    "C24": ["AlgBuilder::*", "<AlgBuilder as *", "<AlgFragment as *"],
    "C25": ["alg::*", "<AlgCLI* as *", "<AlgSource as *", "<CompletionsArgs as *"],
    "C26": [],
    "C27": [],
    "C28": [],
    "C29": ["LineComment::*", "<LineComment as *", "parse_line_comment"],
    "C30": ["<AlgNode as From*", "<MoveLayer as From*", "<MoveRange as From*", "<MovePrefix as From*", "<Option<MovePrefix> as From*",
            "<AlgFragment as From*", "<KPuzzle as From*", "<KPuzzleOrbitName as *", "MoveLayer::new", "MoveRange::new", "QuantumMove::new",
            "LineComment::try_new", "LineComment::text", "<*Error as From*", "<KPattern as From*", "<KPatternBuffer as From*", "<KTransformationBuffer as From*",
            "KPuzzle::definition", "KPattern::kpuzzle", "KTransformation::kpuzzle", "KPuzzle::lookup_orbit", "AlgBuilder::new", "<* as Clone>::clone", "<* as Default>::default"],
}
NOT_APPLICABLE = ["C31", "C32"]
# `Debug` output and the command line's generated argument definitions are nobody's property, except for C25
IGNORED = ["<* as Debug>::fmt"]


def match(cid, pats):
    return any(cid == p or fnmatch.fnmatchcase(cid, p.replace("[", "[[]")) for p in pats)


def roots(pid, cids):
    pats = ROOTS[pid]
    return {c for c in cids if match(c, pats) and (pid == "C11" or not match(c, IGNORED))}
