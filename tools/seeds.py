"""Planted bugs: edits to /repo's HEAD and programs that show them (written from the properties and the code)."""
CORE = "cubing_core/src/"
ALG = CORE + "alg/"
PK = CORE + "kpuzzle/packed/"
SEEDS = []


def seed(id, property, needs, breaks, edits, demo=None, **kw):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))


PZ = r'''
use cubing::alg::*;
use cubing::kpuzzle::*;
#[allow(dead_code)]
fn puzzle(json: &str) -> KPuzzle { KPuzzle::try_from_json(json.as_bytes()).unwrap() }
#[allow(dead_code)]
fn alg(s: &str) -> Alg { s.parse().unwrap() }
#[allow(dead_code)]
fn mv(s: &str) -> Move { s.parse().unwrap() }
'''

seed("parse-prefix-overflow", "C01", "a layer prefix of more than 9 digits in a text that is only parsed",
     "the number of a layer prefix is accumulated by hand and overflows (a panic with overflow checks) instead of being rejected",
     [(ALG + "parse.rs", """fn from_decimal_unsigned(input: &str) -> Result<u32, std::num::ParseIntError> {
    input.parse::<u32>()
}""", """fn from_decimal_unsigned(input: &str) -> Result<u32, std::num::ParseIntError> {
    // All characters are known to be decimal digits.
    Ok(input
        .bytes()
        .fold(0, |value, digit| 10 * value + u32::from(digit - b'0')))
}""")], PZ + r'''
fn main() {
    assert_eq!(alg("12R").to_string(), "12R");
    assert!("99999999999R".parse::<Alg>().is_err());
}
''')

seed("parse-comment-slice", "C01", "a text with a multi-byte character right at the start of a node",
     "a fast path for comments slices the text at byte 2, which panics inside a multi-byte character",
     [(ALG + "parse.rs", """fn parse_node(input: &str) -> IResult<&str, AlgNode> {
    alt((
""", """fn parse_node(input: &str) -> IResult<&str, AlgNode> {
    if input.len() >= 2 && &input[..2] == "//" {
        return into(parse_line_comment)(input);
    }
    alt((
""")], PZ + r'''
fn main() {
    assert_eq!(alg("R //x").to_string(), "R //x");
    assert!("R \u{20ac}".parse::<Alg>().is_err());
}
''')

seed("parse-crowded-pause", "C02", "a pause directly followed by another node",
     "nodes directly after a pause are accepted without a space",
     [(ALG + "parse.rs", "                    Some(AlgNode::LineCommentNode(_)) => false,\n", "                    Some(AlgNode::LineCommentNode(_) | AlgNode::PauseNode(_)) => false,\n")], PZ + r'''
fn main() {
    assert_eq!(alg(". R").nodes.len(), 2);
    assert!(".R".parse::<Alg>().is_err());
}
''')

seed("parse-family-unicode", "C02", "a family name with a letter outside ASCII",
     "letters outside ASCII are accepted in family names",
     [(ALG + "parse.rs", "    c.is_ascii_alphabetic() || c == '_'", "    c.is_alphabetic() || c == '_'")], PZ + r'''
fn main() {
    assert!("R_x".parse::<Move>().is_ok());
    assert!("R\u{e9}".parse::<Move>().is_err());
}
''')

seed("print-range-same", "C03", "a layer range whose two layers are the same",
     "a range with equal layers is printed as a single layer, which parses as another prefix",
     [(ALG + "quantum_move.rs", """        write!(f, "{}-{}", self.outer_layer, self.inner_layer)""", """        if self.outer_layer == self.inner_layer {
            return write!(f, "{}", self.outer_layer);
        }
        write!(f, "{}-{}", self.outer_layer, self.inner_layer)""")], PZ + r'''
fn main() {
    for s in ["R", "2R", "2-3R", "3-3R2'"] {
        let a = alg(s);
        assert_eq!(alg(&a.to_string()), a, "{}", s);
    }
}
''')

seed("invert-conjugate-single", "C05", "a conjugate whose inner part is a single grouping",
     "the inner part of a conjugate is kept as it is if it consists of a single grouping",
     [(ALG + "conjugate.rs", """            a: self.a.clone(),
            b: self.b.invert().into(),
""", """            a: self.a.clone(),
            b: match self.b.nodes.as_slice() {
                [super::AlgNode::GroupingNode(_)] => self.b.clone(),
                _ => self.b.invert().into(),
            },
""")], PZ + r'''
fn main() {
    assert_eq!(alg("[R: U F]").invert(), alg("[R: F' U']"));
    assert_eq!(alg("[R: (U F)3]").invert(), alg("[R: (U F)3']"));
}
''')

seed("eval-grouping-zero", "C06", "a grouping with amount 0 that contains a move the puzzle does not have",
     "the content of a grouping with amount 0 is not evaluated, so an unknown move inside it is not an error",
     [(PK + "kpuzzle.rs", """        AlgNode::GroupingNode(grouping) => {
            Ok(transformation_from_alg""", """        AlgNode::GroupingNode(grouping) if grouping.amount == 0 => {
            Ok(kpuzzle.identity_transformation())
        }
        AlgNode::GroupingNode(grouping) => {
            Ok(transformation_from_alg""")], PZ + r'''
fn main() {
    let k = cubing::puzzles::cube3x3x3_kpuzzle();
    assert!(k.transformation_from_alg(&alg("(R U)0")).is_ok());
    assert!(k.transformation_from_alg(&alg("(R Q)0")).is_err());
}
''')

seed("lookup-derived-first", "C07", "a move that is both defined directly with an exact amount and derived with the same amount",
     "an exact derived definition wins over the exact direct definition",
     [(PK + "lookup_move.rs", """    if let Some((key_move, source)) = def.moves.get_key_value(r#move) {
        return Some(MoveLookupResult {
            key_move,
            relative_amount: 1,
            source: MoveLookupResultSource::DirectlyDefined(source),
        });
    };
    if let Some(derived_moves) = &def.derived_moves {
        if let Some((key_move, source)) = derived_moves.get_key_value(r#move) {
            return Some(MoveLookupResult {
                key_move,
                relative_amount: 1,
                source: MoveLookupResultSource::DerivedFromAlg(source),
            });
        };
    }
""", """    if let Some(derived_moves) = &def.derived_moves {
        if let Some((key_move, source)) = derived_moves.get_key_value(r#move) {
            return Some(MoveLookupResult {
                key_move,
                relative_amount: 1,
                source: MoveLookupResultSource::DerivedFromAlg(source),
            });
        };
    }
    if let Some((key_move, source)) = def.moves.get_key_value(r#move) {
        return Some(MoveLookupResult {
            key_move,
            relative_amount: 1,
            source: MoveLookupResultSource::DirectlyDefined(source),
        });
    };
""")], PZ + r'''
fn main() {
    let k = puzzle(r#"{"name":"x","orbits":[{"orbitName":"A","numPieces":3,"numOrientations":1}],
      "defaultPattern":{"A":{"pieces":[0,1,2],"orientation":[0,0,0]}},
      "moves":{"A":{"A":{"permutation":[1,2,0],"orientationDelta":[0,0,0]}},"B2":{"A":{"permutation":[1,0,2],"orientationDelta":[0,0,0]}}},
      "derivedMoves":{"B2":"A"}}"#);
    let t = k.transformation_from_move(&mv("B2")).unwrap();
    assert_eq!(t.to_data()[&KPuzzleOrbitName("A".into())].permutation, vec![1, 0, 2]);
}
''')

seed("validator-conjugate-inner", "C08", "a derived move that refers to itself in the inner part of a conjugate only",
     "the validator does not follow the inner part of a conjugate if the outer part already used a move",
     [(PK + "derived_moves_validator.rs", """                self.ancestor_move_keys_in_alg_recursive(&conjugate.a, descendant_move_keys)?;

                self.ancestor_move_keys_in_alg_recursive(&conjugate.b, descendant_move_keys)?
""", """                self.ancestor_move_keys_in_alg_recursive(&conjugate.a, descendant_move_keys)?;
                if descendant_move_keys.is_empty() {
                    self.ancestor_move_keys_in_alg_recursive(&conjugate.b, descendant_move_keys)?
                }
""")], PZ + r'''
fn main() {
    let d = |d: &str| KPuzzle::try_from_json(format!(r#"{{"name":"x","orbits":[{{"orbitName":"A","numPieces":3,"numOrientations":1}}],
      "defaultPattern":{{"A":{{"pieces":[0,1,2],"orientation":[0,0,0]}}}},
      "moves":{{"A":{{"A":{{"permutation":[1,2,0],"orientationDelta":[0,0,0]}}}}}},
      "derivedMoves":{{{}}}}}"#, d).as_bytes());
    assert!(d(r#""B":"[A: A]""#).is_ok());
    assert!(d(r#""B":"B""#).is_err());
    assert!(d(r#""B":"[A: B]""#).is_err());
}
''')

seed("apply-skip-fixed", "C09", "applying into a pattern that already holds other values (such as a pattern buffer)",
     "pieces that a transformation does not move are no longer written to the target, which only works if the target starts as a copy",
     [(PK + "kpattern.rs", """        let mut new_kpattern = KPattern::new_unitialized(self.kpuzzle().clone());
        self.apply_transformation_into(transformation, &mut new_kpattern);""", """        let mut new_kpattern = self.clone();
        self.apply_transformation_into(transformation, &mut new_kpattern);"""),
      (PK + "kpattern.rs", """                    unsafe { transformation.get_permutation_idx_unchecked(orbit_info, i) };

                let new_piece_value =""", """                    unsafe { transformation.get_permutation_idx_unchecked(orbit_info, i) };
                if transformation_idx == i
                    && unsafe { transformation.get_orientation_delta_unchecked(orbit_info, i) } == 0
                {
                    continue;
                }

                let new_piece_value =""")], PZ + r'''
fn main() {
    let k = cubing::puzzles::cube3x3x3_kpuzzle();
    let t = |s: &str| k.transformation_from_alg(&alg(s)).unwrap();
    let p = k.default_pattern();
    assert!(p.apply_transformation(&t("R")) == p.apply_alg(&alg("R")).unwrap());
    let mut into = p.apply_transformation(&t("F B2"));
    p.apply_transformation_into(&t("U"), &mut into);
    assert!(into == p.apply_transformation(&t("U")));
}
''')

seed("multiply-mod-1260", "C10", "a puzzle with elements of an order that does not divide 1260, and a large amount",
     "amounts are reduced modulo 1260, which is no multiple of the orders on other puzzles",
     [(PK + "ktransformation.rs", """        if amount == 1 {
            return self.clone();
        }
""", """        // No element has a larger order.
        let amount = amount % 1260;
        if amount == 1 {
            return self.clone();
        }
""")], PZ + r'''
fn main() {
    let k = puzzle(r#"{"name":"x","orbits":[{"orbitName":"A","numPieces":11,"numOrientations":1}],
      "defaultPattern":{"A":{"pieces":[0,1,2,3,4,5,6,7,8,9,10],"orientation":[0,0,0,0,0,0,0,0,0,0,0]}},
      "moves":{"A":{"A":{"permutation":[1,2,3,4,5,6,7,8,9,10,0],"orientationDelta":[0,0,0,0,0,0,0,0,0,0,0]}}}}"#);
    let t = |s: &str| k.transformation_from_move(&mv(s)).unwrap();
    assert_eq!(t("A12"), t("A"));
    assert_eq!(t("A2200"), t("A0"));
}
''')

seed("piece-debug-assert", "C11", "a release build and an index that is not below the number of pieces",
     "the range check of the safe piece setter is only made in debug builds, so a release build writes into another orbit",
     [(PK + "kpattern.rs", """        assert_lt!(i, orbit.num_pieces);
        unsafe { self.set_piece_unchecked(orbit, i, value) }""", """        debug_assert!(i < orbit.num_pieces);
        unsafe { self.set_piece_unchecked(orbit, i, value) }""")], PZ + r'''
fn main() {
    let k = cubing::puzzles::cube3x3x3_kpuzzle();
    let p = k.default_pattern();
    let o = k.orbit_info_iter().next().unwrap();
    let r = std::panic::catch_unwind(|| { let mut p = p.clone(); p.set_piece(o, o.num_pieces, 77); });
    assert!(r.is_err());
}
''', release=True)

seed("clone-skip-orientations", "C12", "a puzzle with an orbit that has a single orientation",
     "cloning leaves the orientation bytes of orbits with a single orientation uninitialized",
     [(PK + "packed_orbit_data.rs", """            std::ptr::copy(
                self.bytes,
                new_packed_orbit_data.bytes,
                self.kpuzzle.data.num_bytes,
            )
        };""", """            for orbit in self.kpuzzle.orbit_info_iter() {
                // There is nothing to copy if there is only one orientation.
                let per_piece = if orbit.num_orientations == 1 { 1 } else { 2 };
                std::ptr::copy(
                    self.bytes.add(orbit.pieces_or_permutations_offset),
                    new_packed_orbit_data
                        .bytes
                        .add(orbit.pieces_or_permutations_offset),
                    per_piece * orbit.num_pieces as usize,
                )
            }
        };""")], PZ + r'''
fn main() {
    let k = puzzle(r#"{"name":"x","orbits":[{"orbitName":"A","numPieces":3,"numOrientations":1}],
      "defaultPattern":{"A":{"pieces":[0,1,2],"orientation":[0,0,0]}},
      "moves":{"A":{"A":{"permutation":[1,2,0],"orientationDelta":[0,0,0]}}}}"#);
    let p = k.default_pattern();
    for _ in 0..1000 {
        // leave other values in freed memory
        let mut v = vec![0xAAu8; 6];
        v[0] = std::hint::black_box(7);
        drop(std::hint::black_box(v));
        let q = p.clone();
        assert!(p == q);
    }
}
''')

if __name__ != "seeds2":
    import seeds2  # noqa: E402,F401 (adds to SEEDS)
