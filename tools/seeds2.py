"""More planted bugs (see seeds.py)."""
from seeds import seed, PZ, ALG, PK, CORE

SMALL = r'''
#[allow(dead_code)]
fn small(orbits: &str, pattern: &str, moves: &str, derived: &str) -> Result<KPuzzle, String> {
    KPuzzle::try_from_json(format!(r#"{{"name":"x","orbits":[{}],"defaultPattern":{{{}}},"moves":{{{}}},"derivedMoves":{{{}}}}}"#, orbits, pattern, moves, derived).as_bytes()).map_err(|e| e.to_string())
}
#[allow(dead_code)]
fn ring(n: usize, o: usize, derived: &str) -> Result<KPuzzle, String> {
    let list = |f: &dyn Fn(usize) -> usize| (0..n).map(|i| f(i).to_string()).collect::<Vec<_>>().join(",");
    small(&format!(r#"{{"orbitName":"A","numPieces":{},"numOrientations":{}}}"#, n, o),
        &format!(r#""A":{{"pieces":[{}],"orientation":[{}]}}"#, list(&|i| i), list(&|_| 0)),
        &format!(r#""A":{{"A":{{"permutation":[{}],"orientationDelta":[{}]}}}},"S":{{"A":{{"permutation":[{}],"orientationDelta":[{}]}}}}"#, list(&|i| (i + 1) % n), list(&|_| 0), list(&|i| i), list(&|i| if i == 0 { 1 % o } else { 0 })),
        derived)
}
'''

seed("amount-print-byte", "C04", "a negative amount below -255",
     "the magnitude of a negative amount is cut to a byte when it is printed",
     [(ALG + "amount.rs", """        write!(f, "{}'", -amount)""", """        write!(f, "{}'", -amount as u8)""")], PZ + r'''
fn main() {
    assert_eq!(mv("R200").invert().to_string(), "R200'");
    let a = alg("(R U)300");
    assert_eq!(alg(&a.invert().to_string()), a.invert());
}
''')

seed("validator-multiples", "C08", "a derived move with an amount other than 1 that refers to itself",
     "derived moves whose amount is not 1 are not validated, so a recursive one is accepted",
     [(PK + "derived_moves_validator.rs", """            for (derived_move, _) in derived_moves.iter() {
                validator.visit(derived_move)?""", """            for (derived_move, _) in derived_moves.iter() {
                if derived_move.amount != 1 {
                    continue; // covered by the quantum move
                }
                validator.visit(derived_move)?""")], PZ + SMALL + r'''
fn main() {
    assert!(ring(3, 1, r#""B":"A2""#).is_ok());
    assert!(ring(3, 1, r#""B":"B""#).is_err());
    assert!(ring(3, 1, r#""B2":"A B2""#).is_err());
}
''')

seed("set-delta-inclusive", "C13", "setting an orientation delta that equals the number of orientations",
     "the range check of an orientation delta is off by one",
     [(PK + "ktransformation.rs", """        assert_lt!(orientation_delta, orbit_info.num_orientations);
""", """        assert!(orientation_delta <= orbit_info.num_orientations);
""")], PZ + r'''
fn main() {
    let k = cubing::puzzles::cube3x3x3_kpuzzle();
    let o = k.orbit_info_iter().next().unwrap();
    let r = std::panic::catch_unwind(|| { let mut t = k.identity_transformation(); t.set_orientation_delta(o, 0, o.num_orientations); });
    assert!(r.is_err());
}
''')

seed("packer-skip-full", "C14", "an orientation modulus that equals the number of orientations of its orbit",
     "the packer treats the full modulus as redundant and has no packed values for it",
     [(PK + "orientation_packer.rs", """            if num_orientations % factor != 0 {
                continue;
            }
""", """            if num_orientations % factor != 0 || (orientation_mod > 1 && factor == num_orientations) {
                continue;
            }
""")], PZ + SMALL + r'''
fn main() {
    let k = ring(2, 3, "").unwrap();
    let d = KPatternData::from([(KPuzzleOrbitName("A".into()), KPatternOrbitData { pieces: vec![0, 1], orientation: vec![1, 2], orientation_mod: Some(vec![0, 3]) })]);
    let p = KPattern::try_from_data(&k, &d).unwrap();
    let back = p.to_data();
    assert!(back[&KPuzzleOrbitName("A".into())] == d[&KPuzzleOrbitName("A".into())]);
}
''')

seed("layout-overlap", "C15", "a puzzle with an orbit with a single orientation that is not the last one",
     "orbits with one orientation reserve no orientation bytes, although these are still written into the next orbit",
     [(PK + "kpuzzle.rs", """            bytes_offset += (orbit_definition.num_pieces as usize) * 2;""", """            bytes_offset += (orbit_definition.num_pieces as usize)
                * if num_orientations == 1 && ordered_orbit_info.len() < definition.orbits.len() {
                    1
                } else {
                    2
                };""")], PZ + SMALL + r'''
fn main() {
    let k = small(r#"{"orbitName":"A","numPieces":2,"numOrientations":1},{"orbitName":"B","numPieces":2,"numOrientations":2}"#,
        r#""A":{"pieces":[0,1],"orientation":[0,0]},"B":{"pieces":[0,1],"orientation":[1,1]}"#, "", "").unwrap();
    let o: Vec<_> = k.orbit_info_iter().collect();
    let mut p = k.default_pattern();
    p.set_orientation_with_mod(o[0], 0, &OrientationWithMod { orientation: 0, orientation_mod: 1 });
    assert_eq!((p.get_piece(o[1], 0), p.get_piece(o[1], 1)), (0, 1));
}
''')

seed("range-eq-unordered", "C16", "two layer ranges with swapped layers",
     "layer ranges with swapped layers are equal",
     [(ALG + "quantum_move.rs", """#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct MoveRange {
    pub outer_layer: u32,
    pub inner_layer: u32,
}
""", """#[derive(Debug, Clone, Eq)]
pub struct MoveRange {
    pub outer_layer: u32,
    pub inner_layer: u32,
}

impl MoveRange {
    fn sorted(&self) -> (u32, u32) {
        (
            self.outer_layer.min(self.inner_layer),
            self.outer_layer.max(self.inner_layer),
        )
    }
}

impl PartialEq for MoveRange {
    fn eq(&self, other: &Self) -> bool {
        self.sorted() == other.sorted()
    }
}

impl std::hash::Hash for MoveRange {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        self.sorted().hash(state)
    }
}
""")], PZ + r'''
fn main() {
    assert_eq!(mv("2-3R"), mv("2-3R"));
    assert_ne!(mv("2-3R"), mv("3-2R"));
}
''')

seed("bytes-eq-words", "C16", "patterns that differ only in the last bytes, of a puzzle whose size is not a multiple of 8",
     "equality compares words and leaves out the remainder",
     [(PK + "packed_orbit_data.rs", """        unsafe { self.byte_slice() == other.byte_slice() }
    }
}

impl Eq for""", """        let (a, b) = unsafe { (self.byte_slice(), other.byte_slice()) };
        a.len() == b.len() && a.chunks_exact(8).eq(b.chunks_exact(8))
    }
}

impl Eq for""")], PZ + SMALL + r'''
fn main() {
    let k = ring(6, 2, "").unwrap();
    let o = k.orbit_info_iter().next().unwrap();
    let a = k.default_pattern();
    let mut b = a.clone();
    assert!(a == b);
    b.set_orientation_with_mod(o, 5, &OrientationWithMod { orientation: 1, orientation_mod: 0 });
    assert!(a != b);
}
''')

seed("pattern-empty-orbit", "C17", "an orbit without pieces",
     "building a pattern subtracts 1 from the number of pieces of an orbit, which overflows if there are none",
     [(PK + "kpattern.rs", """            for i in 0..orbit_info.num_pieces {
                let default_orbit = kpattern_data""", """            for i in 0..=(orbit_info.num_pieces - 1) {
                let default_orbit = kpattern_data""")], PZ + SMALL + r'''
fn main() {
    let k = small(r#"{"orbitName":"A","numPieces":0,"numOrientations":1}"#, r#""A":{"pieces":[],"orientation":[]}"#, "", "").unwrap();
    let _ = k.default_pattern();
}
''')

seed("json-eof-kind", "C18", "pattern JSON that ends too early",
     "pattern JSON that ends too early is reported as an invalid definition",
     [(PK + "kpattern.rs", """            Err(e) => {
                return Err(ConversionError::InvalidKPatternData(
                    super::InvalidKPatternDataError {""", """            Err(e) if e.is_eof() => {
                return Err(ConversionError::InvalidDefinition(
                    format!("Incomplete JSON: {}", e).into(),
                ))
            }
            Err(e) => {
                return Err(ConversionError::InvalidKPatternData(
                    super::InvalidKPatternDataError {""")], PZ + r'''
fn main() {
    let k = cubing::puzzles::cube3x3x3_kpuzzle();
    for s in ["[]", "{", "", "{}"] {
        assert!(matches!(KPattern::try_from_json(k, s.as_bytes()), Err(ConversionError::InvalidKPatternData(_))), "{}", s);
    }
}
''')

seed("serialize-trimmed", "C19", "serializing an alg that ends with a newline",
     "trailing whitespace is cut off when an alg is serialized",
     [(ALG + "alg.rs", """        serializer.serialize_str(&self.to_string())""", """        serializer.serialize_str(self.to_string().trim_end())""")], PZ + r'''
fn main() {
    let a = alg("R U\n");
    assert_eq!(serde_json::to_string(&a).unwrap(), "\"R U\\n\"");
}
''')

seed("deserialize-trimmed", "C19", "deserializing a move with spaces around it",
     "deserializing a move accepts surrounding whitespace, which parsing rejects",
     [(ALG + "move.rs", """        let r#move = s.parse::<Move>();""", """        let r#move = s.trim().parse::<Move>();""")], PZ + r'''
fn main() {
    assert_eq!(serde_json::from_str::<Move>("\"R2'\"").unwrap(), mv("R2'"));
    assert!(" R".parse::<Move>().is_err());
    assert!(serde_json::from_str::<Move>("\" R\"").is_err());
}
''')

seed("macro-family-lower", "C20", "a move with an internal family suffix",
     "`parse_move!` drops trailing underscores of the family",
     [("cubing_macros/src/lib.rs", """            let move_family = &r#move.quantum.family;""", """            let move_family = r#move.quantum.family.trim_end_matches('_');""")], PZ + r'''
fn main() {
    assert_eq!(parse_move!("R2'"), mv("R2'"));
    assert_eq!(parse_move!("R++"), mv("R++"));
}
''')

seed("macro-alg-trimmed", "C20", "`parse_alg!` with a text that starts or ends with a newline",
     "`parse_alg!` trims the text before it is parsed",
     [("cubing_macros/src/lib.rs", """    let alg_string = parse_macro_input!(item as syn::LitStr).value();
""", """    let alg_string = parse_macro_input!(item as syn::LitStr).value();
    let alg_string = alg_string.trim();
""")], PZ + r'''
fn main() {
    assert_eq!(parse_alg!("R U"), alg("R U"));
    assert_eq!(parse_alg!("\nR U\n"), alg("\nR U\n"));
}
''')

seed("cube-wide-back", "C21", "the move 2B on the 3x3x3",
     "the derived move 2B is defined as the inverse slice",
     [(CORE + "puzzles/3x3x3.kpuzzle.json", """    "2B": "b B'",""", """    "2B": "B b'",""")], PZ + r'''
fn main() {
    let k = cubing::puzzles::cube3x3x3_kpuzzle();
    assert_eq!(k.transformation_from_alg(&alg("2F")).unwrap(), k.transformation_from_alg(&alg("S")).unwrap());
    assert_eq!(k.transformation_from_alg(&alg("2B")).unwrap(), k.transformation_from_alg(&alg("S'")).unwrap());
}
''')

seed("loader-first-call", "C22", "comparing the references that the first and a later call of a loader return",
     "the first call of a pattern loader returns its own value instead of the shared one",
     [(CORE + "kpuzzle/json_macros.rs", """            [<$kpattern_name _kpattern_cell>]
                  .get_or_init(|| {
                    $crate::kpuzzle::KPattern::try_from_json(
                          $kpuzzle,
                          include_bytes!($file),
                      )
                      .unwrap()
                  })
""", """            if let Some(kpattern) = [<$kpattern_name _kpattern_cell>].get() {
                return kpattern;
            }
            let kpattern = $crate::kpuzzle::KPattern::try_from_json(
                  $kpuzzle,
                  include_bytes!($file),
              )
              .unwrap();
            let _ = [<$kpattern_name _kpattern_cell>].set(kpattern.clone());
            Box::leak(Box::new(kpattern))
""")], None, files={"demo.rs": PZ + r'''
kpattern_from_json_file!(pub, example, "./example.json", cubing::puzzles::cube2x2x2_kpuzzle());
fn main() {
    let a = example_kpattern();
    let b = example_kpattern();
    assert!(a == b);
    assert!(std::ptr::eq(a, b));
}
''', "example.json": '{"CORNERS":{"pieces":[0,1,2,3,4,5,6,7],"orientation":[0,0,0,0,0,0,0,0]}}'},
     script='cp "$here/demo.rs" "$w/src/main.rs"; cp "$here/example.json" "$w/src/example.json"\ncd "$w" && timeout 280 cargo run -q --offline\n')

seed("buffer-eq-parity", "C23", "two buffers with equal current values after numbers of moves of different parity",
     "buffer equality also compares which half is current",
     [(PK + "kpattern.rs", """impl PartialEq for KPatternBuffer {
    fn eq(&self, other: &Self) -> bool {
        self.current() == other.current()""", """impl PartialEq for KPatternBuffer {
    fn eq(&self, other: &Self) -> bool {
        self.a_is_current == other.a_is_current && self.current() == other.current()""")], PZ + r'''
fn main() {
    let k = cubing::puzzles::cube3x3x3_kpuzzle();
    let t = k.transformation_from_alg(&alg("R")).unwrap();
    let mut a = KPatternBuffer::from(k.default_pattern());
    let b = KPatternBuffer::from(k.default_pattern().apply_transformation(&t));
    a.apply_transformation(&t);
    assert!(a == b);
}
''')

seed("buffer-lazy-second", "C23", "applying a transformation to a buffer whose halves differ, after the identity",
     "the identity is skipped but the halves are still swapped",
     [(PK + "ktransformation.rs", """    pub fn apply_transformation(&mut self, transformation: &KTransformation) {
        if self.a_is_current {
            self.a
                .apply_transformation_into(transformation, &mut self.b);""", """    pub fn apply_transformation(&mut self, transformation: &KTransformation) {
        if *transformation == transformation.kpuzzle().identity_transformation() {
            // Nothing to compute.
        } else if self.a_is_current {
            self.a
                .apply_transformation_into(transformation, &mut self.b);""")], PZ + r'''
fn main() {
    let k = cubing::puzzles::cube3x3x3_kpuzzle();
    let t = |s: &str| k.transformation_from_alg(&alg(s)).unwrap();
    let mut a = KTransformationBuffer::from(t("U"));
    for s in ["R", "", "F"] {
        a.apply_transformation(&t(s));
    }
    assert!(*a.current() == t("U R F"));
}
''')

seed("builder-dedup-newlines", "C24", "pushing two newlines after one another",
     "consecutive newlines are merged by the builder",
     [(ALG + "alg_builder.rs", """        let nodes = mapped.collect();
        Alg { nodes }""", """        let mut nodes: Vec<AlgNode> = mapped.collect();
        nodes.dedup_by(|a, b| {
            matches!(a, AlgNode::NewlineNode(_)) && matches!(b, AlgNode::NewlineNode(_))
        });
        Alg { nodes }""")], PZ + r'''
fn main() {
    let mut b = AlgBuilder::default();
    for n in alg("R\n\nU").nodes.iter() {
        b.push(n);
    }
    assert_eq!(b.to_alg(), alg("R\n\nU"));
}
''')

seed("cli-trim", "C25", "standard input that starts with a newline",
     "`alg invert` trims its standard input, so leading newlines are lost",
     [("alg_cli/main.rs", """        AlgCLICommand::Invert(invert_args) => {
            let alg = match invert_args.alg {
                Some(alg) => alg,
                None => {
                    assert!(invert_args.stdin);
                    read_to_string(stdin()).unwrap()
                }
            };""", """        AlgCLICommand::Invert(invert_args) => {
            let alg = match invert_args.alg {
                Some(alg) => alg,
                None => {
                    assert!(invert_args.stdin);
                    read_to_string(stdin()).unwrap().trim().to_owned()
                }
            };""")], None, files={}, script='''timeout 280 cargo build -q --offline --manifest-path "$repo/Cargo.toml" -p alg-cli || exit 3
bin=$w/target/debug/alg
out=$(printf 'R U\\n' | "$bin" invert --stdin; echo x)
[ "$out" = "$(printf '\\nU'"'"' R'"'"'\\nx')" ]
''')

seed("lookup-by-quantum", "C26", "a puzzle that defines several amounts of the same quantum move but not the looked up ones",
     "a last resort of the lookup takes whichever definition of the same quantum move comes first in the hash map",
     [(PK + "lookup_move.rs", """                relative_amount: -1,
                source: MoveLookupResultSource::DerivedFromAlg(source),
            });
        };
    }
    None
}""", """                relative_amount: -1,
                source: MoveLookupResultSource::DerivedFromAlg(source),
            });
        };
    }
    // Multiples of another amount
    def.moves
        .iter()
        .find(|(key_move, _)| {
            key_move.quantum == r#move.quantum
                && key_move.amount != 0
                && r#move.amount % key_move.amount == 0
        })
        .map(|(key_move, source)| MoveLookupResult {
            key_move,
            relative_amount: r#move.amount / key_move.amount,
            source: MoveLookupResultSource::DirectlyDefined(source),
        })
}""")], PZ + SMALL + r'''
fn main() {
    let m = |n: &str| format!(r#""{}":{{"A":{{"permutation":[1,2,0],"orientationDelta":[0,0,0]}}}}"#, n);
    let k = small(r#"{"orbitName":"A","numPieces":3,"numOrientations":1}"#, r#""A":{"pieces":[0,1,2],"orientation":[0,0,0]}"#, &[m("A2"), m("A3")].join(","), "").unwrap();
    assert!(k.transformation_from_move(&mv("A3")).is_ok());
    assert!(k.transformation_from_move(&mv("A6")).is_err());
}
''')

seed("get-canonicalizes", "C27", "reading an orientation with a full modulus from several threads",
     "reading an orientation rewrites it to its canonical form through a shared reference",
     [(PK + "kpattern.rs", """        let packed_orientation_with_mod = &self.get_packed_orientation_with_mod_unchecked(orbit, i);
        orbit.orientation_packer.unpack(packed_orientation_with_mod)""", """        let packed_orientation_with_mod = &self.get_packed_orientation_with_mod_unchecked(orbit, i);
        let orientation_with_mod = orbit.orientation_packer.unpack(packed_orientation_with_mod);
        if orientation_with_mod.orientation_mod == orbit.num_orientations {
            // The modulus is redundant.
            let canonical = OrientationWithMod::new_using_default_orientation_mod(
                orientation_with_mod.orientation,
            );
            self.packed_orbit_data
                .bytes_offset(orbit.orientations_offset, i)
                .write(orbit.orientation_packer.pack(&canonical));
        }
        orientation_with_mod""")], PZ + SMALL + r'''
fn main() {
    let k = ring(2, 3, "").unwrap();
    let o = k.orbit_info_iter().next().unwrap();
    let mut p = k.default_pattern();
    p.set_orientation_with_mod(o, 1, &OrientationWithMod { orientation: 1, orientation_mod: 3 });
    let before = unsafe { p.byte_slice() }.to_vec();
    let _ = p.get_orientation_with_mod(o, 1);
    assert_eq!(before, unsafe { p.byte_slice() });
}
''')

seed("facade-list", "C28", "using the layer types through the facade crate",
     "the facade lists the names it exports and leaves some out",
     [("cubing/src/lib.rs", """    pub use cubing_core::alg::Alg;
    pub use cubing_core::alg::*;
""", """    pub use cubing_core::alg::Alg;
    pub use cubing_core::alg::{
        AlgBuilder, AlgNode, AlgParseError, Amount, Commutator, Conjugate, Grouping, LineComment,
        Move, MoveLayer, MovePrefix, Newline, Pause, QuantumMove,
    };
""")], r'''
fn main() {
    let _ = cubing::alg::MoveLayer::new(1);
    let _ = cubing::alg::MoveRange::new(1, 2);
}
''')

seed("comment-trailing-newline", "C29", "a comment text that ends with a newline",
     "a trailing newline is accepted in a comment text",
     [(ALG + "line_comment.rs", """        if s.contains('\\n') {""", """        if s.trim_end().contains('\\n') {""")], PZ + r'''
fn main() {
    assert!(LineComment::try_new("a b").is_ok());
    assert!(LineComment::try_new("a\nb").is_err());
    assert!(LineComment::try_new("a\n").is_err());
}
''')

seed("range-sorted", "C30", "a layer range whose outer layer is larger than the inner one",
     "a range built from a pair sorts its layers",
     [(ALG + "quantum_move.rs", """        let (outer_layer, inner_layer) = layers;
        MoveRange {
            outer_layer,
            inner_layer,
        }""", """        let (a, b) = layers;
        MoveRange {
            outer_layer: a.min(b),
            inner_layer: a.max(b),
        }""")], PZ + r'''
fn main() {
    assert_eq!(MoveRange::from((2, 3)), MoveRange::new(2, 3));
    assert_eq!(MoveRange::from((3, 2)), MoveRange::new(3, 2));
}
''')

seed("buffer-ptr-read", "C12", "dropping a buffer",
     "a buffer copies the owner of the bytes instead of the bytes",
     [(PK + "ktransformation.rs", """            b: initial.clone(), // TODO?
            a: initial,""", """            b: unsafe { std::ptr::read(&initial) },
            a: initial,""")], PZ + r'''
fn main() {
    let k = cubing::puzzles::cube3x3x3_kpuzzle();
    let t = |s: &str| k.transformation_from_alg(&alg(s)).unwrap();
    let mut a = KTransformationBuffer::from(t("U"));
    a.apply_transformation(&t("R"));
    assert!(*a.current() == t("U R"));
    drop(a);
    let _ = (t("F"), t("F"));
}
''')

seed("involution-permutation", "C10", "inverting a transformation whose permutation has order 2 but which twists pieces",
     "a fast path of the inversion takes every transformation whose permutation is its own inverse as its own inverse",
     [(PK + "ktransformation.rs", """    pub fn invert(&self) -> KTransformation {
""", """    pub fn invert(&self) -> KTransformation {
        // Half turns are their own inverses.
        let is_involution = self.kpuzzle().orbit_info_iter().all(|orbit_info| {
            (0..orbit_info.num_pieces).all(|i| {
                let idx = self.get_permutation_idx(orbit_info, i);
                idx < orbit_info.num_pieces && self.get_permutation_idx(orbit_info, idx) == i
            })
        });
        if is_involution {
            return self.clone();
        }
""")], PZ + SMALL + r'''
fn main() {
    let k = ring(3, 3, "").unwrap();
    let t = |s: &str| k.transformation_from_alg(&alg(s)).unwrap();
    assert_eq!(t("A").invert().apply_transformation(&t("A")), k.identity_transformation());
    assert_eq!(t("S").invert().apply_transformation(&t("S")), k.identity_transformation());
}
''')

seed("invert-keeps-heading", "C05", "an alg that starts with a comment",
     "a comment at the start of an alg stays at the start of its inverse",
     [(ALG + "alg.rs", """        let nodes = self.nodes.iter().rev().map(|m| m.invert()).collect();
        Alg { nodes }""", """        let mut nodes: Vec<AlgNode> = self.nodes.iter().rev().map(|m| m.invert()).collect();
        if matches!(nodes.last(), Some(AlgNode::LineCommentNode(_))) {
            nodes.rotate_right(1);
        }
        Alg { nodes }""")], PZ + r'''
fn main() {
    assert_eq!(alg("R U").invert(), alg("U' R'"));
    let a = alg("//c\nR");
    let i = a.invert();
    assert!(matches!(i.nodes[2], AlgNode::LineCommentNode(_)));
}
''')

seed("eval-comment-ends", "C06", "moves after a line comment",
     "an alg is only evaluated up to its first line comment",
     [(PK + "kpuzzle.rs", """    for node in alg.nodes.iter() {
        let node_transformation""", """    for node in alg
        .nodes
        .iter()
        .take_while(|node| !matches!(node, AlgNode::LineCommentNode(_)))
    {
        let node_transformation""")], PZ + r'''
fn main() {
    let k = cubing::puzzles::cube3x3x3_kpuzzle();
    let t = |s: &str| k.transformation_from_alg(&alg(s)).unwrap();
    assert_eq!(t("R U"), t("R\nU"));
    assert_eq!(t("R //c\nU"), t("R U"));
}
''')

seed("lookup-inverse-signum", "C07", "a move whose amount is neither defined nor a multiple of a defined one with amount 1",
     "inverse definitions are applied with the sign of the amount",
     [(PK + "lookup_move.rs", """    if let Some((key_move, source)) = def.moves.get_key_value(&r#move.invert()) {
        return Some(MoveLookupResult {
            key_move,
            relative_amount: -1,""", """    if let Some((key_move, source)) = def.moves.get_key_value(&r#move.invert()) {
        return Some(MoveLookupResult {
            key_move,
            relative_amount: r#move.amount.signum(),""")], PZ + SMALL + r'''
fn main() {
    let k = small(r#"{"orbitName":"A","numPieces":3,"numOrientations":1}"#, r#""A":{"pieces":[0,1,2],"orientation":[0,0,0]}"#,
        r#""A2'":{"A":{"permutation":[1,2,0],"orientationDelta":[0,0,0]}},"B2":{"A":{"permutation":[1,2,0],"orientationDelta":[0,0,0]}}"#, "").unwrap();
    let t = |s: &str| k.transformation_from_move(&mv(s)).unwrap();
    assert_eq!(t("B2'").apply_transformation(&t("B2")), k.identity_transformation());
    assert_eq!(t("A2").apply_transformation(&t("A2'")), k.identity_transformation());
}
''')

seed("parse-tabs", "C02", "an alg whose nodes are separated by tabs",
     "tabs are accepted between nodes",
     [(ALG + "parse.rs", """    let (input, spaces) = opt(many1(tag(" ")))(input)?;""", """    let (input, spaces) = opt(many1(alt((tag(" "), tag("\\t")))))(input)?;""")], PZ + r'''
fn main() {
    assert_eq!(alg("R  U").nodes.len(), 2);
    assert!("R\tU".parse::<Alg>().is_err());
}
''')

seed("parse-spaces-replaced", "C02", "a comment that contains two spaces in a row",
     "runs of spaces are collapsed before parsing, also inside comments",
     [(ALG + "parse.rs", """        match all_consuming(parse_alg)(s) {
            Ok((_, alg)) => Ok(alg),""", """        let mut collapsed = s.to_owned();
        while collapsed.contains("  ") {
            collapsed = collapsed.replace("  ", " ");
        }
        let parsed = all_consuming(parse_alg)(&collapsed).map_err(|e| e.to_owned());
        match parsed {
            Ok((_, alg)) => Ok(alg),""")], PZ + r'''
fn main() {
    assert_eq!(alg("R  U"), alg("R U"));
    assert_eq!(alg("//a  b").to_string(), "//a  b");
}
''')

seed("square1-unordered", "C05", "the Square-1 tuple notation with both amounts equal in magnitude",
     "the inverse of a tuple is kept as it is if its amounts cancel out",
     [(ALG + "grouping.rs", """            let nodes = vec![move_0.invert().into(), move_1.invert().into()];""", """            if move_0.amount.checked_add(move_1.amount) == Some(0) && move_0.amount.abs() == 6 {
                return self.clone();
            }
            let nodes = vec![move_0.invert().into(), move_1.invert().into()];""")], PZ + r'''
fn main() {
    assert_eq!(alg("(3, -3)").invert(), alg("(-3, 3)"));
    assert_eq!(alg("(6, -6)").invert(), alg("(-6, 6)"));
}
''')

seed("hash-sorted-pieces", "C16", "hashing is fine but equality of transformations compares only permutations",
     "transformations compare equal if their permutations are equal and the puzzle has no oriented pieces in its first orbit",
     [(PK + "ktransformation.rs", """impl PartialEq<KTransformation> for KTransformation {
    fn eq(&self, other: &Self) -> bool {
        unsafe { self.byte_slice() == other.byte_slice() }""", """impl PartialEq<KTransformation> for KTransformation {
    fn eq(&self, other: &Self) -> bool {
        self.kpuzzle().orbit_info_iter().all(|orbit_info| {
            (0..orbit_info.num_pieces).all(|i| {
                self.get_permutation_idx(orbit_info, i) == other.get_permutation_idx(orbit_info, i)
                    && (orbit_info.num_orientations <= 2
                        || self.get_orientation_delta(orbit_info, i)
                            == other.get_orientation_delta(orbit_info, i))
            })
        })""")], PZ + SMALL + r'''
fn main() {
    let k = ring(3, 2, "").unwrap();
    let t = |s: &str| k.transformation_from_alg(&alg(s)).unwrap();
    assert_ne!(t("S"), k.identity_transformation());
}
''')

seed("drop-conditional", "C12", "dropping values of a puzzle without pieces",
     "the memory of a value is freed with the layout of the default pattern's length",
     [(PK + "packed_orbit_data.rs", """        unsafe { dealloc(self.bytes, self.kpuzzle.data.layout) }""", """        let layout = std::alloc::Layout::array::<u8>(self.kpuzzle.data.num_bytes);
        if let Ok(layout) = layout {
            unsafe { dealloc(self.bytes, layout) }
        }""")], PZ + SMALL + r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct Watch;
static EMPTY: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() == 0 {
            EMPTY.fetch_add(1, SeqCst);
        } else {
            System.dealloc(p, l)
        }
    }
}
#[global_allocator]
static WATCH: Watch = Watch;
fn main() {
    let k = small("", "", "", "").unwrap();
    drop(k.identity_transformation());
    assert_eq!(EMPTY.load(SeqCst), 0);
}
''')

seed("slice-offset-mut", "C11", "mixing patterns and transformations of puzzles of different sizes",
     "applying a transformation reads the transformation's bytes without the bounds check",
     [(PK + "ktransformation.rs", """    pub unsafe fn get_orientation_delta_unchecked(
        &self,
        orbit_info: &KPuzzleOrbitInfo,
        i: u8,
    ) -> u8 {
        // TODO: dedup with PackedKTransformation, or at least implement as a trait?
        unsafe {
            self.packed_orbit_data
                .bytes_offset(orbit_info.orientations_offset, i)
                .read()
        }""", """    pub unsafe fn get_orientation_delta_unchecked(
        &self,
        orbit_info: &KPuzzleOrbitInfo,
        i: u8,
    ) -> u8 {
        // TODO: dedup with PackedKTransformation, or at least implement as a trait?
        unsafe {
            self.packed_orbit_data
                .bytes
                .add(orbit_info.orientations_offset + i as usize)
                .read()
        }""")], PZ + SMALL + r'''
fn main() {
    let big = ring(20, 2, "").unwrap();
    let little = ring(20, 2, "").unwrap();
    let tiny = small(r#"{"orbitName":"A","numPieces":20,"numOrientations":2}"#, r#""A":{"pieces":[0],"orientation":[0]}"#, "", "");
    let _ = (little, tiny);
    let o = big.orbit_info_iter().next().unwrap();
    let small2 = ring(2, 2, "").unwrap();
    let r = std::panic::catch_unwind(|| small2.identity_transformation().get_orientation_delta(o, 19));
    assert!(r.is_err());
}
''')

seed("move-trim-loop", "C01", "a text with a single space before the move",
     "a retry without leading spaces never ends if there is an odd number of them",
     [(ALG + "parse.rs", """            Ok((_, q)) => Ok(q),
            Err(_) => Err("Invalid move string".into()),""", """            Ok((_, q)) => Ok(q),
            Err(_) => {
                let mut rest = s;
                while rest.starts_with(' ') {
                    rest = rest.trim_start_matches("  ");
                }
                Err(format!("Invalid move string: {}", rest).into())
            }""")], PZ + r'''
use std::{sync::mpsc, thread, time::Duration};
fn main() {
    assert!("R )".parse::<Move>().is_err());
    let (tx, rx) = mpsc::channel();
    thread::spawn(move || { let _ = tx.send(" R".parse::<Move>().is_err()); });
    let ok = rx.recv_timeout(Duration::from_secs(5)).unwrap_or(false);
    if !ok { eprintln!("no result"); std::process::exit(1) }
}
''')

seed("to-data-canonical", "C15", "a pattern whose piece has the modulus 1",
     "orientation moduli are written as 0 for pieces whose modulus is 1",
     [(PK + "kpattern.rs", """                orientation_mod.push(orientation_with_mod.orientation_mod);
            }""", """                orientation_mod.push(match orientation_with_mod.orientation_mod {
                    1 if orbit_info.num_orientations > 2 => 0,
                    orientation_mod => orientation_mod,
                });
            }""")], PZ + SMALL + r'''
fn main() {
    let k = cubing::puzzles::cube3x3x3_kpuzzle();
    let n = KPuzzleOrbitName("CENTERS".into());
    let mut d = k.default_pattern().to_data();
    let o = d.get_mut(&n).unwrap();
    o.orientation_mod = Some(vec![1, 1, 1, 2, 4, 0]);
    let p = KPattern::try_from_data(k, &d).unwrap();
    assert!(p.to_data()[&n] == d[&n]);
}
''')

seed("default-pattern-global", "C26", "default patterns of two puzzles with the same name",
     "default patterns are cached by the name of the puzzle",
     [(PK + "kpuzzle.rs", """        KPattern::try_from_data(self, &self.definition().default_pattern)
            .expect("Invalid default pattern")""", """        use std::{collections::HashMap, sync::Mutex};
        static CACHE: Mutex<Option<HashMap<String, KPattern>>> = Mutex::new(None);
        CACHE
            .lock()
            .unwrap_or_else(|e| e.into_inner())
            .get_or_insert_with(HashMap::new)
            .entry(self.definition().name.clone())
            .or_insert_with(|| {
                KPattern::try_from_data(self, &self.definition().default_pattern)
                    .expect("Invalid default pattern")
            })
            .clone()""")], PZ + SMALL + r'''
fn main() {
    let a = ring(3, 2, "").unwrap();
    let b = ring(4, 2, "").unwrap();
    assert_eq!(a.default_pattern().to_data()[&KPuzzleOrbitName("A".into())].pieces.len(), 3);
    assert_eq!(b.default_pattern().to_data()[&KPuzzleOrbitName("A".into())].pieces.len(), 4);
}
''')

seed("definition-key", "C19", "writing a puzzle definition as JSON and reading it back",
     "a list of a pattern definition has another JSON key when it is written",
     [(CORE + "kpuzzle/definition.rs", """    pub orientation: Vec<u8>,
    pub orientation_mod: Option<Vec<u8>>,
}

struct Same""", """    pub orientation: Vec<u8>,
    #[serde(alias = "orientationMod", rename(serialize = "orientation_mod"))]
    pub orientation_mod: Option<Vec<u8>>,
}

struct Same""")], PZ + r'''
fn main() {
    let d = cubing::puzzles::cube3x3x3_kpuzzle().default_pattern().to_data();
    let s = serde_json::to_string(&d).unwrap();
    assert!(s.contains("orientationMod"));
    let e: KPatternData = serde_json::from_str(&s).unwrap();
    assert!(d == e);
}
''')

seed("pattern-source", "C18", "displaying an invalid move error that was converted into a conversion error",
     "an invalid definition of a move loses its cause",
     [(PK + "kpuzzle.rs", """                        description: format!("Invalid definition for move {}: {}", key_move, e),""",
       """                        description: format!("Invalid definition for move {}: {}", key_move, key_move),""")] if False else
     [(PK + "errors.rs", """impl Display for InvalidKTransformationDataError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.description)""", """impl Display for InvalidKTransformationDataError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.description.lines().next().unwrap_or_default())""")], PZ + r'''
fn main() {
    let e = InvalidKTransformationDataError { description: "a\nb".to_owned() };
    assert_eq!(e.to_string(), "a\nb");
}
''')

seed("parse-error-source", "C18", "the error of `transformation_from_move` for a move whose direct definition is invalid",
     "an unknown move of a puzzle without any moves is reported as a parse error",
     [(PK + "kpuzzle.rs", """            None => {
                return Err(InvalidMoveError {
                    description: format!("Move does not exist on this puzzle: {}", key_move),
                }
                .into())
            }""", """            None if self.definition().moves.is_empty() => {
                return Err(AlgParseError {
                    description: format!("This puzzle has no moves: {}", key_move),
                }
                .into())
            }
            None => {
                return Err(InvalidMoveError {
                    description: format!("Move does not exist on this puzzle: {}", key_move),
                }
                .into())
            }""")], PZ + SMALL + r'''
fn main() {
    let k = small("", "", "", "").unwrap();
    assert!(matches!(k.transformation_from_move(&mv("R")), Err(InvalidAlgError::InvalidMove(_))));
}
''')
