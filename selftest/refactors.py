"""Behaviour-preserving edits: no check may report anything for them."""
D = "cubing_core/src/kpuzzle/packed/"
A = "cubing_core/src/alg/"
CASES = []


def R(name, f, *edits):
    """edits: pairs old, new; a file name switches the file"""
    out = []
    i = 0
    es = list(edits)
    while i < len(es):
        if es[i].endswith(".rs") and "\n" not in es[i]:
            f = es[i]
            i += 1
            continue
        out.append((f, es[i], es[i + 1]))
        i += 2
    CASES.append((name, "R", out))


# ---- packed_orbit_data.rs
P = D + "packed_orbit_data.rs"
R("pod-eq-match", P, "unsafe { self.byte_slice() == other.byte_slice() }", """let (left, right) = unsafe { (self.byte_slice(), other.byte_slice()) };
        left == right""")
R("pod-eq-iter", P, "unsafe { self.byte_slice() == other.byte_slice() }", """let left = unsafe { self.byte_slice() };
        let right = unsafe { other.byte_slice() };
        left.len() == right.len() && left.iter().zip(right.iter()).all(|(a, b)| a == b)""")
R("pod-clone-nonoverlapping", P, """            std::ptr::copy(
                self.bytes,
                new_packed_orbit_data.bytes,
                self.kpuzzle.data.num_bytes,
            )
        };
        new_packed_orbit_data""", """            let num_bytes = self.kpuzzle.data.num_bytes;
            std::ptr::copy_nonoverlapping(self.bytes, new_packed_orbit_data.bytes, num_bytes);
        }
        new_packed_orbit_data""")
R("pod-clone-loop", P, """            std::ptr::copy(
                self.bytes,
                new_packed_orbit_data.bytes,
                self.kpuzzle.data.num_bytes,
            )
        };""", """            for i in 0..self.kpuzzle.data.num_bytes {
                *new_packed_orbit_data.bytes.add(i) = *self.bytes.add(i);
            }
        };""")
R("pod-hash-local", P, "unsafe { self.byte_slice() }.hash(state);", """let bytes = unsafe { self.byte_slice() };
        bytes.hash(state);""")
R("pod-offset-helper", P, """        let offset = main_offset + (second_offset as usize);
        // Safe code can pass an orbit of one puzzle to a pattern or
        // transformation of another one.
        assert_lt!(offset, self.kpuzzle.data.num_bytes);
        self.bytes.add(offset)
    }
""", """        let offset = main_offset + usize::from(second_offset);
        self.check_offset(offset);
        self.bytes.add(offset)
    }

    fn check_offset(&self, offset: usize) {
        let num_bytes = self.kpuzzle.data.num_bytes;
        assert!(offset < num_bytes, "offset out of range");
    }
""")
R("pod-get-deref", P, """        unsafe {
            self.bytes_offset(orbit.pieces_or_permutations_offset, i)
                .read()
        }""", """        let pointer = unsafe { self.bytes_offset(orbit.pieces_or_permutations_offset, i) };
        unsafe { *pointer }""")
R("pod-set-deref", P, """        unsafe { self.bytes_offset(orbit.orientations_offset, i).write(value) }""", """        unsafe { *self.bytes_offset(orbit.orientations_offset, i) = value };""")
R("pod-new-order", P, """        let bytes = unsafe { alloc(kpuzzle.data.layout) };
        if bytes.is_null() {
            handle_alloc_error(kpuzzle.data.layout)
        }
        Self { kpuzzle, bytes }""", """        let layout = kpuzzle.data.layout;
        let bytes = unsafe { alloc(layout) };
        if !bytes.is_null() {
            return Self { kpuzzle, bytes };
        }
        handle_alloc_error(layout)""")
R("pod-drop-local", P, "unsafe { dealloc(self.bytes, self.kpuzzle.data.layout) }", """let layout = self.kpuzzle.data.layout;
        unsafe {
            dealloc(self.bytes, layout);
        }""")
R("pod-slice-inline", P, "self.byte_slice_offset(0, self.kpuzzle.data.num_bytes)", """let len = self.kpuzzle.data.num_bytes;
        std::slice::from_raw_parts(self.bytes, len)""")
R("pod-ne", P, """        unsafe { self.byte_slice() == other.byte_slice() }
    }
""", """        unsafe { self.byte_slice() == other.byte_slice() }
    }

    #[allow(clippy::partialeq_ne_impl)]
    fn ne(&self, other: &Self) -> bool {
        !self.eq(other)
    }
""")

# ---- kpuzzle.rs
P = D + "kpuzzle.rs"
R("kz-identity-while", P, """        for i in 0..num_pieces {
            unsafe { packed_orbit_data.set_raw_piece_or_permutation_value(orbit_info, i, i) };
            unsafe { packed_orbit_data.set_raw_orientation_value(orbit_info, i, 0) };
        }""", """        let mut i = 0;
        while i < num_pieces {
            unsafe {
                packed_orbit_data.set_raw_orientation_value(orbit_info, i, 0);
                packed_orbit_data.set_raw_piece_or_permutation_value(orbit_info, i, i);
            }
            i += 1;
        }""")
R("kz-identity-two-loops", P, """        for i in 0..num_pieces {
            unsafe { packed_orbit_data.set_raw_piece_or_permutation_value(orbit_info, i, i) };
            unsafe { packed_orbit_data.set_raw_orientation_value(orbit_info, i, 0) };
        }""", """        for i in 0..num_pieces {
            unsafe { packed_orbit_data.set_raw_piece_or_permutation_value(orbit_info, i, i) };
        }
        for i in 0..num_pieces {
            unsafe { packed_orbit_data.set_raw_orientation_value(orbit_info, i, 0) };
        }""")
R("kz-identity-helper", P, """        let num_pieces = orbit_info.num_pieces;
        for i in 0..num_pieces {
            unsafe { packed_orbit_data.set_raw_piece_or_permutation_value(orbit_info, i, i) };
            unsafe { packed_orbit_data.set_raw_orientation_value(orbit_info, i, 0) };
        }
    }
    KTransformation { packed_orbit_data }
}
""", """        set_orbit_to_identity(&mut packed_orbit_data, orbit_info);
    }
    KTransformation { packed_orbit_data }
}

fn set_orbit_to_identity(packed_orbit_data: &mut PackedOrbitData, orbit_info: &KPuzzleOrbitInfo) {
    for i in 0..orbit_info.num_pieces {
        unsafe { packed_orbit_data.set_raw_piece_or_permutation_value(orbit_info, i, i) };
        unsafe { packed_orbit_data.set_raw_orientation_value(orbit_info, i, 0) };
    }
}
""")
R("kz-tfa-fold", P, """    let mut t = kpuzzle.identity_transformation();
    for node in alg.nodes.iter() {
        let node_transformation = transformation_from_alg_node(kpuzzle, node)?;
        t = t.apply_transformation(&node_transformation);
    }
    Ok(t)""", """    alg.nodes
        .iter()
        .try_fold(kpuzzle.identity_transformation(), |t, node| {
            let node_transformation = transformation_from_alg_node(kpuzzle, node)?;
            Ok(t.apply_transformation(&node_transformation))
        })""")
R("kz-tfa-index", P, """    for node in alg.nodes.iter() {
        let node_transformation = transformation_from_alg_node(kpuzzle, node)?;
        t = t.apply_transformation(&node_transformation);
    }
    Ok(t)""", """    for i in 0..alg.nodes.len() {
        match transformation_from_alg_node(kpuzzle, &alg.nodes[i]) {
            Ok(node_transformation) => t = t.apply_transformation(&node_transformation),
            Err(e) => return Err(e),
        }
    }
    Ok(t)""")
R("kz-node-merge", P, """        AlgNode::PauseNode(_pause) => Ok(kpuzzle.identity_transformation()),
        AlgNode::NewlineNode(_pause) => Ok(kpuzzle.identity_transformation()),
        AlgNode::LineCommentNode(_pause) => Ok(kpuzzle.identity_transformation()),
""", """        AlgNode::PauseNode(_) | AlgNode::NewlineNode(_) | AlgNode::LineCommentNode(_) => {
            Ok(kpuzzle.identity_transformation())
        }
""")
R("kz-node-commutator-helper", P, """            let a = transformation_from_alg(kpuzzle, &commutator.a)?;
            let b = transformation_from_alg(kpuzzle, &commutator.b)?;
            let a_prime = a.invert();
            let b_prime = b.invert();
            Ok(a.apply_transformation(&b)
                .apply_transformation(&a_prime)
                .apply_transformation(&b_prime))""", """            let a = transformation_from_alg(kpuzzle, &commutator.a)?;
            let b = transformation_from_alg(kpuzzle, &commutator.b)?;
            Ok(conjugate_transformation(&a, &b).apply_transformation(&b.invert()))""", """            let a = transformation_from_alg(kpuzzle, &conjugate.a)?;
            let b = transformation_from_alg(kpuzzle, &conjugate.b)?;
            let a_prime = a.invert();
            Ok(a.apply_transformation(&b).apply_transformation(&a_prime))
        }
    }
}
""", """            let a = transformation_from_alg(kpuzzle, &conjugate.a)?;
            let b = transformation_from_alg(kpuzzle, &conjugate.b)?;
            Ok(conjugate_transformation(&a, &b))
        }
    }
}

fn conjugate_transformation(a: &KTransformation, b: &KTransformation) -> KTransformation {
    let a_prime = a.invert();
    let ab = a.apply_transformation(b);
    ab.apply_transformation(&a_prime)
}
""")
R("kz-node-grouping-split", P, """            Ok(transformation_from_alg(kpuzzle, &grouping.alg)?.self_multiply(grouping.amount))""", """            let once = match transformation_from_alg(kpuzzle, &grouping.alg) {
                Ok(once) => once,
                Err(e) => return Err(e),
            };
            Ok(once.self_multiply(grouping.amount))""")
R("kz-new-validate-helper", P, """            let num_orientations = orbit_definition.num_orientations;
            if num_orientations > MAX_NUM_ORIENTATIONS_INCLUSIVE {
                return Err(InvalidDefinitionError { description: format!("`num_orientations` for orbit {} is too large ({}). Maximum is {} for the current build." , orbit_definition.orbit_name, num_orientations, MAX_NUM_ORIENTATIONS_INCLUSIVE)});
            }
            if num_orientations == 0 {
                return Err(InvalidDefinitionError {
                    description: format!(
                        "`num_orientations` for orbit {} must not be 0.",
                        orbit_definition.orbit_name
                    ),
                });
            }
            if OrientationPacker::num_packed_values(num_orientations) > u8::MAX as usize {
                return Err(InvalidDefinitionError {
                    description: format!(
                        "`num_orientations` for orbit {} ({}) has too many `orientation_mod` values for the current build.",
                        orbit_definition.orbit_name, num_orientations
                    ),
                });
            }
""", """            let num_orientations = orbit_definition.num_orientations;
            check_num_orientations(&orbit_definition.orbit_name, num_orientations)?;
""", """fn transformation_from_alg(
    kpuzzle: &KPuzzle,""", """fn check_num_orientations(
    orbit_name: &KPuzzleOrbitName,
    num_orientations: u8,
) -> Result<(), InvalidDefinitionError> {
    if num_orientations == 0 {
        return Err(format!("`num_orientations` for orbit {} must not be 0.", orbit_name).into());
    }
    if num_orientations > MAX_NUM_ORIENTATIONS_INCLUSIVE {
        return Err(InvalidDefinitionError { description: format!("`num_orientations` for orbit {} is too large ({}). Maximum is {} for the current build." , orbit_name, num_orientations, MAX_NUM_ORIENTATIONS_INCLUSIVE)});
    }
    if OrientationPacker::num_packed_values(num_orientations) > u8::MAX as usize {
        return Err(InvalidDefinitionError {
            description: format!(
                "`num_orientations` for orbit {} ({}) has too many `orientation_mod` values for the current build.",
                orbit_name, num_orientations
            ),
        });
    }
    Ok(())
}

fn transformation_from_alg(
    kpuzzle: &KPuzzle,""")
R("kz-new-locals", P, """            ordered_orbit_info.push({
                KPuzzleOrbitInfo {
                    name: orbit_definition.orbit_name.clone(),
                    num_pieces: orbit_definition.num_pieces,
                    num_orientations,
                    pieces_or_permutations_offset: bytes_offset,
                    orientations_offset: bytes_offset + (orbit_definition.num_pieces as usize),
                    orientation_packer: OrientationPacker::new(orbit_definition.num_orientations),
                }
            });
            bytes_offset += (orbit_definition.num_pieces as usize) * 2;""", """            let num_pieces = orbit_definition.num_pieces as usize;
            let pieces_or_permutations_offset = bytes_offset;
            bytes_offset += num_pieces;
            let orientations_offset = bytes_offset;
            bytes_offset += num_pieces;
            ordered_orbit_info.push(KPuzzleOrbitInfo {
                name: orbit_definition.orbit_name.clone(),
                num_pieces: orbit_definition.num_pieces,
                num_orientations,
                pieces_or_permutations_offset,
                orientations_offset,
                orientation_packer: OrientationPacker::new(num_orientations),
            });""")
R("kz-new-layout", P, """        // Allocating 0 bytes is undefined behaviour.
        let num_allocated_bytes = bytes_offset.max(1);
        Ok(Self {
            data: Arc::new(KPuzzleData {
                definition,
                num_bytes: bytes_offset,
                ordered_orbit_info,
                layout: Layout::array::<u8>(num_allocated_bytes).map_err(|_| {
                    InvalidDefinitionError {
                        description: "Could not construct packed layout.".to_owned(),
                    }
                })?,
            }),
        })""", """        // Allocating 0 bytes is undefined behaviour.
        let num_allocated_bytes = if bytes_offset == 0 { 1 } else { bytes_offset };
        let layout = match Layout::array::<u8>(num_allocated_bytes) {
            Ok(layout) => layout,
            Err(_) => return Err("Could not construct packed layout.".into()),
        };
        let data = KPuzzleData {
            definition,
            ordered_orbit_info,
            num_bytes: bytes_offset,
            layout,
        };
        Ok(Self {
            data: Arc::new(data),
        })""")
R("kz-json-question", P, """        let definition: KPuzzleDefinition = match serde_json::from_slice(json_bytes) {
            Ok(kpuzzle_data) => kpuzzle_data,
            Err(e) => {
                return Err(InvalidDefinitionError {
                    description: e.to_string().to_owned(),
                })
            }
        };
        KPuzzle::try_new(definition)""", """        let definition: KPuzzleDefinition =
            serde_json::from_slice(json_bytes).map_err(|e| InvalidDefinitionError {
                description: e.to_string(),
            })?;
        Self::try_new(definition)""")
R("kz-lookup-orbit-loop", P, """        self.orbit_info_iter()
            .find(|&orbit| &orbit.name == orbit_name)""", """        for orbit in &self.data.ordered_orbit_info {
            if orbit.name == *orbit_name {
                return Some(orbit);
            }
        }
        None""")
R("kz-tfm-let-else", P, """        let move_lookup_result = match lookup_move(self.definition(), key_move) {
            Some(move_lookup_result) => move_lookup_result,
            None => {
                return Err(InvalidMoveError {
                    description: format!("Move does not exist on this puzzle: {}", key_move),
                }
                .into())
            }
        };
        let transformation""", """        let Some(move_lookup_result) = lookup_move(self.definition(), key_move) else {
            let error = InvalidMoveError {
                description: format!("Move does not exist on this puzzle: {}", key_move),
            };
            return Err(InvalidAlgError::InvalidMove(error));
        };
        let transformation""")
R("kz-tfm-ok-or", P, """        let move_lookup_result = match lookup_move(self.definition(), key_move) {
            Some(move_lookup_result) => move_lookup_result,
            None => {
                return Err(InvalidMoveError {
                    description: format!("Move does not exist on this puzzle: {}", key_move),
                }
                .into())
            }
        };
        let transformation""", """        let move_lookup_result =
            lookup_move(self.definition(), key_move).ok_or_else(|| InvalidMoveError {
                description: format!("Move does not exist on this puzzle: {}", key_move),
            })?;
        let transformation""")
R("kz-tfm-match", P, """                KTransformation::try_from_data(self, transformation_data).map_err(|e| {
                    InvalidMoveError {
                        description: format!("Invalid definition for move {}: {}", key_move, e),
                    }
                })?
            }""", """                match KTransformation::try_from_data(self, transformation_data) {
                    Ok(transformation) => transformation,
                    Err(e) => {
                        let description = format!("Invalid definition for move {key_move}: {e}");
                        return Err(InvalidMoveError { description }.into());
                    }
                }
            }""")
R("kz-default-match", P, """        KPattern::try_from_data(self, &self.definition().default_pattern)
            .expect("Invalid default pattern")""", """        let default_pattern = &self.data.definition.default_pattern;
        match KPattern::try_from_data(self, default_pattern) {
            Ok(pattern) => pattern,
            Err(e) => panic!("Invalid default pattern: {:?}", e),
        }""")
R("kz-display-direct", P, """impl Display for InvalidMoveError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.description)""", """impl Display for InvalidMoveError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.description)""")

# ---- orientation_packer.rs
P = D + "orientation_packer.rs"
R("op-num-loop", P, """        let proper: usize = (1..=num_orientations)
            .filter(|orientation_mod| num_orientations % orientation_mod == 0)
            .sum();
        proper + num_orientations""", """        let mut total = num_orientations;
        for orientation_mod in 1..=num_orientations {
            if num_orientations % orientation_mod == 0 {
                total += orientation_mod;
            }
        }
        total""")
R("op-new-match", P, """            let factor = if orientation_mod == 0 {
                num_orientations
            } else {
                orientation_mod
            };""", """            let factor = match orientation_mod {
                0 => num_orientations,
                _ => orientation_mod,
            };""")
R("op-new-if", P, """            if num_orientations % factor != 0 {
                continue;
            }
            packing_table[orientation_mod as usize] = num_packed_values_sofar; // Note: this is sparse, so we only assign once per `orientation_mod`, not once per packed value.
            for orientation in 0..factor {
                unpacking_table[num_packed_values_sofar as usize] = OrientationWithMod {
                    orientation,
                    orientation_mod,
                };
                num_packed_values_sofar += 1;
            }
        }
""", """            if num_orientations % factor == 0 {
                packing_table[usize::from(orientation_mod)] = num_packed_values_sofar; // Note: this is sparse, so we only assign once per `orientation_mod`, not once per packed value.
                for orientation in 0..factor {
                    let unpacked = OrientationWithMod {
                        orientation,
                        orientation_mod,
                    };
                    unpacking_table[usize::from(num_packed_values_sofar)] = unpacked;
                    num_packed_values_sofar += 1;
                }
            }
        }
""")
R("op-new-modulus", P, """                let new_orientation = (orientation_with_mod.orientation + orientation_delta)
                    % if orientation_with_mod.orientation_mod == 0 {
                        num_orientations
                    } else {
                        orientation_with_mod.orientation_mod
                    };
                transformation_lookup[orientation_delta as usize][packed_value as usize] =
                    packing_table[orientation_with_mod.orientation_mod as usize] + new_orientation""", """                let modulus = match orientation_with_mod.orientation_mod {
                    0 => num_orientations,
                    orientation_mod => orientation_mod,
                };
                let new_orientation =
                    (orientation_with_mod.orientation + orientation_delta) % modulus;
                let first = packing_table[orientation_with_mod.orientation_mod as usize];
                transformation_lookup[orientation_delta as usize][packed_value as usize] =
                    first + new_orientation;""")
R("op-new-swap-loops", P, """        for orientation_delta in 0..num_orientations {
            for packed_value in 0..num_packed_values_sofar {
                let orientation_with_mod""", """        for packed_value in 0..num_packed_values_sofar {
            for orientation_delta in 0..num_orientations {
                let orientation_with_mod""")
R("op-pack-local", P, """        self.packing_table[orientation_with_mod.orientation_mod as usize]
            + orientation_with_mod.orientation""", """        let OrientationWithMod {
            orientation,
            orientation_mod,
        } = *orientation_with_mod;
        let first_packed_value = self.packing_table[orientation_mod as usize];
        first_packed_value + orientation""")

# ---- lookup_move.rs
P = D + "lookup_move.rs"
R("lm-helper", P, """pub(crate) fn lookup_move<'a>(""", """fn lookup_direct<'a>(
    def: &'a KPuzzleDefinition,
    r#move: &Move,
    relative_amount: i32,
) -> Option<MoveLookupResult<'a>> {
    let (key_move, source) = def.moves.get_key_value(r#move)?;
    Some(MoveLookupResult {
        key_move,
        relative_amount,
        source: MoveLookupResultSource::DirectlyDefined(source),
    })
}

fn lookup_derived<'a>(
    def: &'a KPuzzleDefinition,
    r#move: &Move,
    relative_amount: i32,
) -> Option<MoveLookupResult<'a>> {
    let derived_moves = def.derived_moves.as_ref()?;
    derived_moves
        .get_key_value(r#move)
        .map(|(key_move, source)| MoveLookupResult {
            key_move,
            relative_amount,
            source: MoveLookupResultSource::DerivedFromAlg(source),
        })
}

pub(crate) fn lookup_move<'a>(""",
  """    if let Some((key_move, source)) = def.moves.get_key_value(r#move) {
        return Some(MoveLookupResult {
            key_move,
            relative_amount: 1,
            source: MoveLookupResultSource::DirectlyDefined(source),
        });
    };
    if let Some(derived_moves) = &def.derived_moves {
        if let Some((key_move, source)) = derived_moves.get_key_value(r#move) {
            return Some(MoveLookupResult {
                key_move,
                relative_amount: 1,
                source: MoveLookupResultSource::DerivedFromAlg(source),
            });
        };
    }
    // Inverse match (e.g. y2' on clock)
    if let Some((key_move, source)) = def.moves.get_key_value(&r#move.invert()) {
        return Some(MoveLookupResult {
            key_move,
            relative_amount: -1,
            source: MoveLookupResultSource::DirectlyDefined(source),
        });
    };
    if let Some(derived_moves) = &def.derived_moves {
        if let Some((key_move, source)) = derived_moves.get_key_value(&r#move.invert()) {
            return Some(MoveLookupResult {
                key_move,
                relative_amount: -1,
                source: MoveLookupResultSource::DerivedFromAlg(source),
            });
        };
    }
    None
}""", """    if let Some(result) = lookup_direct(def, r#move, 1) {
        return Some(result);
    }
    if let Some(result) = lookup_derived(def, r#move, 1) {
        return Some(result);
    }
    // Inverse match (e.g. y2' on clock)
    let inverse = r#move.invert();
    lookup_direct(def, &inverse, -1).or_else(|| lookup_derived(def, &inverse, -1))
}""")
R("lm-all-loop", P, """    // Handle cases by order of commonality.
    if let Some((key_move, source)) = def.moves.get_key_value(&move_with_amount_1(r#move)) {
        return Some(MoveLookupResult {
            key_move,
            relative_amount: r#move.amount,
            source: MoveLookupResultSource::DirectlyDefined(source),
        });
    };
    if let Some(derived_moves) = &def.derived_moves {
        if let Some((key_move, source)) = derived_moves.get_key_value(&move_with_amount_1(r#move)) {
            return Some(MoveLookupResult {
                key_move,
                relative_amount: r#move.amount,
                source: MoveLookupResultSource::DerivedFromAlg(source),
            });
        };
    }
    // Exact match (e.g. y2 on clock)
    if let Some((key_move, source)) = def.moves.get_key_value(r#move) {
        return Some(MoveLookupResult {
            key_move,
            relative_amount: 1,
            source: MoveLookupResultSource::DirectlyDefined(source),
        });
    };
    if let Some(derived_moves) = &def.derived_moves {
        if let Some((key_move, source)) = derived_moves.get_key_value(r#move) {
            return Some(MoveLookupResult {
                key_move,
                relative_amount: 1,
                source: MoveLookupResultSource::DerivedFromAlg(source),
            });
        };
    }
    // Inverse match (e.g. y2' on clock)
    if let Some((key_move, source)) = def.moves.get_key_value(&r#move.invert()) {
        return Some(MoveLookupResult {
            key_move,
            relative_amount: -1,
            source: MoveLookupResultSource::DirectlyDefined(source),
        });
    };
    if let Some(derived_moves) = &def.derived_moves {
        if let Some((key_move, source)) = derived_moves.get_key_value(&r#move.invert()) {
            return Some(MoveLookupResult {
                key_move,
                relative_amount: -1,
                source: MoveLookupResultSource::DerivedFromAlg(source),
            });
        };
    }
    None
}""", """    // Handle cases by order of commonality: amount 1, exact match (e.g. y2 on clock), inverse match (e.g. y2' on clock).
    let candidates = [
        (move_with_amount_1(r#move), r#move.amount),
        (r#move.clone(), 1),
        (r#move.invert(), -1),
    ];
    for (candidate, relative_amount) in &candidates {
        if let Some((key_move, source)) = def.moves.get_key_value(candidate) {
            return Some(MoveLookupResult {
                key_move,
                relative_amount: *relative_amount,
                source: MoveLookupResultSource::DirectlyDefined(source),
            });
        }
        if let Some(derived_moves) = &def.derived_moves {
            if let Some((key_move, source)) = derived_moves.get_key_value(candidate) {
                return Some(MoveLookupResult {
                    key_move,
                    relative_amount: *relative_amount,
                    source: MoveLookupResultSource::DerivedFromAlg(source),
                });
            }
        }
    }
    None
}""")
R("lm-bind-once", P, """    // Handle cases by order of commonality.
    if let Some((key_move, source)) = def.moves.get_key_value(&move_with_amount_1(r#move)) {""", """    // Handle cases by order of commonality.
    let quantum_move = move_with_amount_1(r#move);
    if let Some((key_move, source)) = def.moves.get_key_value(&quantum_move) {""", """derived_moves.get_key_value(&move_with_amount_1(r#move))""", """derived_moves.get_key_value(&quantum_move)""")

# ---- derived_moves_validator.rs
P = D + "derived_moves_validator.rs"
R("dv-check-keys", P, """        if let Some(derived_moves) = &def.derived_moves {
            let mut validator = DerivedMovesValidator {
                def,
                derived_move_visit_statuses: HashMap::default(),
            };
            for (derived_move, _) in derived_moves.iter() {
                validator.visit(derived_move)?
            }
        }
        Ok(())""", """        let derived_moves = match &def.derived_moves {
            Some(derived_moves) => derived_moves,
            None => return Ok(()),
        };
        let mut validator = DerivedMovesValidator {
            def,
            derived_move_visit_statuses: HashMap::new(),
        };
        for derived_move in derived_moves.keys() {
            validator.visit(derived_move)?;
        }
        Ok(())""")
R("dv-visit-match", P, """        match self.derived_move_visit_statuses.get(key_move) {
            Some(DerivedMoveVisitStatus::InProgress(())) => {
                return Err(format!("Recursive derived move definition for: {}", key_move).into());
            }
            Some(DerivedMoveVisitStatus::Done(())) => return Ok(()),
            None => (),
        };""", """        if let Some(status) = self.derived_move_visit_statuses.get(key_move) {
            return match status {
                DerivedMoveVisitStatus::Done(()) => Ok(()),
                DerivedMoveVisitStatus::InProgress(()) => {
                    Err(format!("Recursive derived move definition for: {}", key_move).into())
                }
            };
        }""")
R("dv-visit-iflet", P, """        match move_lookup_result.source {
            MoveLookupResultSource::DirectlyDefined(_) => {}
            MoveLookupResultSource::DerivedFromAlg(alg) => {
                let descendant_move_keys = self.ancestor_move_keys_in_alg(alg)?;
                for descendant_move_key in descendant_move_keys {
                    self.visit(&descendant_move_key)?
                }
            }
        };""", """        if let MoveLookupResultSource::DerivedFromAlg(alg) = move_lookup_result.source {
            for descendant_move_key in &self.ancestor_move_keys_in_alg(alg)? {
                self.visit(descendant_move_key)?;
            }
        }""")
R("dv-visit-letelse", P, """        let move_lookup_result = match lookup_move(self.def, key_move) {
            Some(move_lookup_result) => move_lookup_result,
            None => {
                return Err("Invalid move??".into());
            }
        };
        match""", """        let Some(move_lookup_result) = lookup_move(self.def, key_move) else {
            return Err("Invalid move??".into());
        };
        match""")
R("dv-alg-reuse", P, """        let mut descendant_move_keys = HashSet::<Move>::default();
        for node in &alg.nodes {
            self.ancestor_move_keys_in_node(node, &mut descendant_move_keys)?
        }
        Ok(descendant_move_keys)""", """        let mut descendant_move_keys = HashSet::new();
        self.ancestor_move_keys_in_alg_recursive(alg, &mut descendant_move_keys)?;
        Ok(descendant_move_keys)""")
R("dv-rec-tryforeach", P, """        descendant_move_keys: &mut HashSet<Move>, // TODO: figure out how to avoid owning `Move`s?
    ) -> Result<(), String> {
        for node in &alg.nodes {
            self.ancestor_move_keys_in_node(node, descendant_move_keys)?
        }
        Ok(())""", """        descendant_move_keys: &mut HashSet<Move>, // TODO: figure out how to avoid owning `Move`s?
    ) -> Result<(), String> {
        alg.nodes
            .iter()
            .try_for_each(|node| self.ancestor_move_keys_in_node(node, descendant_move_keys))""")
R("dv-node-loop", P, """            AlgNode::CommutatorNode(commutator) => {
                self.ancestor_move_keys_in_alg_recursive(&commutator.a, descendant_move_keys)?;

                self.ancestor_move_keys_in_alg_recursive(&commutator.b, descendant_move_keys)?
            }""", """            AlgNode::CommutatorNode(commutator) => {
                for alg in [&commutator.a, &commutator.b] {
                    self.ancestor_move_keys_in_alg_recursive(alg, descendant_move_keys)?;
                }
            }""")

# ---- parse.rs
P = A + "parse.rs"
R("pa-digit-class", P, "    c.is_ascii_digit()\n", "    ('0'..='9').contains(&c)\n")
R("pa-digit-matches", P, "    c.is_ascii_digit()\n", "    matches!(c, '0'..='9')\n")
R("pa-family-class", P, "    c.is_ascii_alphabetic() || c == '_'\n", "    matches!(c, 'a'..='z' | 'A'..='Z' | '_')\n")
R("pa-family-ifs", P, "    c.is_ascii_alphabetic() || c == '_'\n", """    if c == '_' {
        return true;
    }
    c.is_ascii_lowercase() || c.is_ascii_uppercase()
""")
R("pa-neg-map", P, """    let (input, _) = tag("-")(input)?;
    let (input, n) = parse_natural_number_signed(input)?;
    // TODO: check cast?
    Ok((input, -n))""", """    let (rest, _) = tag("-")(input)?;
    parse_natural_number_signed(rest).map(|(rest, n)| (rest, -n))""")
R("pa-decimal-match", P, "    alt((parse_natural_number_signed, parse_negative_decimal_signed))(input)", """    match opt(tag("-"))(input)? {
        (_, None) => parse_natural_number_signed(input),
        (_, Some::<&str>(_)) => parse_negative_decimal_signed(input),
    }""")
R("pa-prefix-match", P, """    let (input, dash) = opt(tag("-"))(input)?;
    if dash.is_none() {
        return Ok((input, outer_layer.into()));
    }
    let (input, inner_layer) = parse_decimal_unsigned(input)?;
    Ok((input, (outer_layer, inner_layer).into()))""", """    let (input, dash): (&str, Option<&str>) = opt(tag("-"))(input)?;
    match dash {
        Some(_) => {
            let (input, inner_layer) = parse_decimal_unsigned(input)?;
            let prefix = MovePrefix::from((outer_layer, inner_layer));
            Ok((input, prefix))
        }
        None => Ok((input, MovePrefix::from(outer_layer))),
    }""")
R("pa-prefix-strip", P, """    let (input, dash) = opt(tag("-"))(input)?;
    if dash.is_none() {
        return Ok((input, outer_layer.into()));
    }
""", """    let Some(input) = input.strip_prefix('-') else {
        return Ok((input, outer_layer.into()));
    };
""")
R("pa-qm-new", P, """        QuantumMove {
            family: family.to_owned(),
            prefix,
        },
    ))
}
impl TryFrom<&str> for QuantumMove {""", """        QuantumMove::new(family, prefix),
    ))
}
impl TryFrom<&str> for QuantumMove {""")
R("pa-qm-str", P, """        match all_consuming(parse_quantum_move)(s) {
            Ok((_, q)) => Ok(q),
            Err(_) => Err("Invalid move range string".into()),
        }""", """        all_consuming(parse_quantum_move)(s)
            .map(|(_, quantum)| quantum)
            .map_err(|_| AlgParseError::from("Invalid move range string"))""")
R("pa-qm-rest", P, """        match all_consuming(parse_quantum_move)(s) {
            Ok((_, q)) => Ok(q),
            Err(_) => Err("Invalid move range string".into()),
        }""", """        match parse_quantum_move(s) {
            Ok(("", q)) => Ok(q),
            _ => Err("Invalid move range string".into()),
        }""")
R("pa-amount-direct", P, """    let (input, amount_number) = opt(parse_natural_number_signed)(input)?;
    Ok((input, amount_number))""", """    opt(parse_natural_number_signed)(input)""")
R("pa-prime-bool", P, """    let (input, prime) = opt(tag("'"))(input)?;
    Ok((
        input,
        match prime {
            Some(_) => -1,
            None => 1,
        },
    ))""", """    let (input, prime) = opt(tag("'"))(input)?;
    let direction = if prime.is_some() { -1 } else { 1 };
    Ok((input, direction))""")
R("pa-prime-strip", P, """    let (input, prime) = opt(tag("'"))(input)?;
    Ok((
        input,
        match prime {
            Some(_) => -1,
            None => 1,
        },
    ))""", """    Ok(match input.strip_prefix('\\'') {
        Some(rest) => (rest, -1),
        None => (input, 1),
    })""")
R("pa-suffix-match", P, """    let amount_number = amount_number.unwrap_or(1);
    let (input, prime) = parse_optional_prime(input)?;
    Ok((input, amount_number * prime))""", """    let (input, prime) = parse_optional_prime(input)?;
    let amount = match amount_number {
        Some(amount_number) => prime * amount_number,
        None => prime,
    };
    Ok((input, amount))""")
R("pa-pochmann-push", P, """            family: format!("{}{}", quantum.family, _PLUSPLUS_),
            prefix: quantum.prefix,
        }""", """            family: quantum.family + _PLUSPLUS_,
            prefix: quantum.prefix,
        }""")
R("pa-clock-mut", P, """    fn add_internal_suffix(quantum: QuantumMove) -> QuantumMove {
        QuantumMove {
            family: format!("{}{}", quantum.family, _PLUS_),
            prefix: quantum.prefix,
        }
    }""", """    fn add_internal_suffix(mut quantum: QuantumMove) -> QuantumMove {
        quantum.family.push_str(_PLUS_);
        quantum
    }""")
R("pa-pochmann-value", P, """    let (input, suffix) = alt((tag("++"), tag("--")))(input)?;
    Ok((
        input,
        match suffix {
            "++" => PochmannStringSuffix::PlusPlus,
            _ => PochmannStringSuffix::MinusMinus,
        },
    ))""", """    let (input, suffix) = alt((tag("--"), tag("++")))(input)?;
    let suffix = if suffix == "--" {
        PochmannStringSuffix::MinusMinus
    } else {
        PochmannStringSuffix::PlusPlus
    };
    Ok((input, suffix))""")
R("pa-move-reorder", P, """        let amount = pochmann_suffix.amount();
        return Ok((
            input,
            Move {
                quantum: Arc::new(PochmannStringSuffix::add_internal_suffix(quantum)),
                amount,
            },
        ));""", """        let quantum = PochmannStringSuffix::add_internal_suffix(quantum);
        let pochmann_move = Move {
            amount: pochmann_suffix.amount(),
            quantum: quantum.into(),
        };
        return Ok((input, pochmann_move));""")
R("pa-move-slash-helper", P, """    let (input, slash) = opt(parse_slash)(input)?;
    if slash.is_some() {
        return Ok((
            input,
            Move {
                quantum: Arc::new(QuantumMove {
                    family: "_SLASH_".to_owned(),
                    prefix: None,
                }),
                amount: 1,
            },
        ));
    }
""", """    if let (input, Some(())) = opt(parse_slash)(input)? {
        return Ok((input, slash_move()));
    }
""", """impl TryFrom<&str> for Move {""", """fn slash_move() -> Move {
    let family = super::r#move::_SLASH_.to_owned();
    Move {
        quantum: Arc::new(QuantumMove {
            family,
            prefix: None,
        }),
        amount: 1,
    }
}
impl TryFrom<&str> for Move {""")
R("pa-move-nested", P, """    if let Some(amount_number) = amount_number {
        let (input, clock_suffix) = opt(parse_clock_suffix)(input)?;
        if let Some(clock_suffix) = clock_suffix {
            let amount = amount_number * clock_suffix.amount();
            return Ok((
                input,
                Move {
                    quantum: Arc::new(ClockSuffix::add_internal_suffix(quantum)),
                    amount,
                },
            ));
        }
    };

    let (input, prime) = parse_optional_prime(input)?;

    Ok((
        input,
        Move {
            quantum: quantum.into(),
            amount: amount_number.unwrap_or(1) * prime,
        },
    ))""", """    let unsigned_amount = match amount_number {
        Some(amount_number) => {
            if let Ok((input, clock_suffix)) = parse_clock_suffix(input) {
                let quantum = ClockSuffix::add_internal_suffix(quantum);
                return Ok((
                    input,
                    Move {
                        quantum: Arc::new(quantum),
                        amount: clock_suffix.amount() * amount_number,
                    },
                ));
            }
            amount_number
        }
        None => 1,
    };

    let (input, prime) = parse_optional_prime(input)?;
    let amount = unsigned_amount * prime;
    Ok((
        input,
        Move {
            quantum: Arc::new(quantum),
            amount,
        },
    ))""")
R("pa-spaces-trim", P, """    let (input, spaces) = opt(many1(tag(" ")))(input)?;
    Ok((input, spaces.is_some()))""", """    let rest = input.trim_start_matches(' ');
    Ok((rest, rest.len() < input.len()))""")
R("pa-spaces-take", P, """    let (input, spaces) = opt(many1(tag(" ")))(input)?;
    Ok((input, spaces.is_some()))""", """    let (input, spaces) = opt(take_while1(|c| c == ' '))(input)?;
    Ok((input, spaces.is_some()))""")
R("pa-alg-crowded-flag", P, """    let mut previous_node: Option<&AlgNode> = None;
    for spaces_and_node in &spaces_and_nodes {
        let (preceded_by_spaces, node) = spaces_and_node;

        if !matches!(node, AlgNode::NewlineNode(_)) {
            let is_crowded = !*preceded_by_spaces
                && match previous_node {
                    Some(AlgNode::NewlineNode(_)) => false,
                    Some(AlgNode::LineCommentNode(_)) => false,
                    None => false,
                    Some(_) => true,
                };

            if is_crowded {
                // TODO issue a useful error message
                one_of(" \\n")(input)?; // TODO: is there a way to do this without re-parsing?
            }
        }

        previous_node = Some(node);
    }
""", """    let mut may_be_crowded = false;
    for (preceded_by_spaces, node) in &spaces_and_nodes {
        let is_newline = matches!(node, AlgNode::NewlineNode(_));
        if may_be_crowded && !preceded_by_spaces && !is_newline {
            // TODO issue a useful error message
            one_of(" \\n")(input)?; // TODO: is there a way to do this without re-parsing?
        }
        may_be_crowded = !is_newline && !matches!(node, AlgNode::LineCommentNode(_));
    }
""")
R("pa-alg-crowded-match", P, """            let is_crowded = !*preceded_by_spaces
                && match previous_node {
                    Some(AlgNode::NewlineNode(_)) => false,
                    Some(AlgNode::LineCommentNode(_)) => false,
                    None => false,
                    Some(_) => true,
                };
""", """            let is_crowded = !preceded_by_spaces
                && !matches!(
                    previous_node,
                    None | Some(AlgNode::NewlineNode(_) | AlgNode::LineCommentNode(_))
                );
""")
R("pa-alg-crowded-helper", P, """            let is_crowded = !*preceded_by_spaces
                && match previous_node {
                    Some(AlgNode::NewlineNode(_)) => false,
                    Some(AlgNode::LineCommentNode(_)) => false,
                    None => false,
                    Some(_) => true,
                };

            if is_crowded {""", """            if !*preceded_by_spaces && needs_space_after(previous_node) {""", """fn parse_alg(input: &str)""", """fn needs_space_after(previous_node: Option<&AlgNode>) -> bool {
    previous_node.is_some_and(|node| {
        !matches!(
            node,
            AlgNode::NewlineNode(_) | AlgNode::LineCommentNode(_)
        )
    })
}

fn parse_alg(input: &str)""")
R("pa-alg-nodes-loop", P, """    let nodes: Vec<AlgNode> = spaces_and_nodes.into_iter().map(|(_, node)| node).collect();
    Ok((input, Alg { nodes }))""", """    let mut nodes = Vec::with_capacity(spaces_and_nodes.len());
    for (_, node) in spaces_and_nodes {
        nodes.push(node);
    }
    Ok((input, Alg { nodes }))""")
R("pa-alg-str", P, """        match all_consuming(parse_alg)(s) {
            Ok((_, alg)) => Ok(alg),
            Err(e) => Err(format!("Invalid alg string: {}", e).into()),
        }""", """        let (_, alg) = all_consuming(parse_alg)(s)
            .map_err(|e| AlgParseError::from(format!("Invalid alg string: {e}")))?;
        Ok(alg)""")
R("pa-comment-find", P, """    let (input, text) = take_till(|c| c == '\\n')(input)?;
    let line_comment""", """    let end = input.find('\\n').unwrap_or(input.len());
    let (text, input) = input.split_at(end);
    let line_comment""")
R("pa-comment-expect", P, """LineComment::try_new(text).unwrap(); //""", """LineComment::try_new(text).expect("the text ends before the next newline"); //""")
R("pa-group-new", P, """    let (input, amount) = parse_optional_amount_suffix(input)?;
    Ok((
        input,
        Grouping {
            alg: alg.into(),
            amount,
        },
    ))""", """    let alg = Arc::new(alg);
    let (input, amount) = parse_optional_amount_suffix(input)?;
    Ok((input, Grouping { alg, amount }))""")
R("pa-group-map", P, """    let (input, amount) = parse_optional_amount_suffix(input)?;
    Ok((
        input,
        Grouping {
            alg: alg.into(),
            amount,
        },
    ))""", """    parse_optional_amount_suffix(input).map(|(input, amount)| {
        (
            input,
            Grouping {
                alg: alg.into(),
                amount,
            },
        )
    })""")
R("pa-sq-helper", P, """    let alg = Alg {
        nodes: vec![
            AlgNode::MoveNode(Move {
                quantum: U_SQ_quantum(),
                amount: top_amount,
            }),
            AlgNode::MoveNode(Move {
                quantum: D_SQ_quantum(),
                amount: bottom_amount,
            }),
        ],
    };
    Ok((""", """    let mut nodes: Vec<AlgNode> = Vec::new();
    for (quantum, amount) in [(U_SQ_quantum(), top_amount), (D_SQ_quantum(), bottom_amount)] {
        nodes.push(Move { quantum, amount }.into());
    }
    let alg = Alg { nodes };
    Ok((""")
R("pa-sq-locals", P, """    let alg = Alg {
        nodes: vec![
            AlgNode::MoveNode(Move {
                quantum: U_SQ_quantum(),
                amount: top_amount,
            }),
            AlgNode::MoveNode(Move {
                quantum: D_SQ_quantum(),
                amount: bottom_amount,
            }),
        ],
    };
    Ok((""", """    let bottom = Move {
        quantum: D_SQ_quantum(),
        amount: bottom_amount,
    };
    let top = Move {
        quantum: U_SQ_quantum(),
        amount: top_amount,
    };
    let alg = Alg {
        nodes: vec![top.into(), bottom.into()],
    };
    Ok((""")
R("pa-cc-match", P, """    let alg_node = if separator == ',' {
        Commutator {
            a: a.into(),
            b: b.into(),
        }
        .into()
    } else {
        Conjugate {
            a: a.into(),
            b: b.into(),
        }
        .into()
    };
    let (input, amount) = parse_optional_amount_suffix(input)?;
    if amount == 1 {
        return Ok((input, alg_node));
    }
""", """    let (a, b) = (Arc::new(a), Arc::new(b));
    let alg_node = match separator {
        ':' => AlgNode::ConjugateNode(Conjugate { a, b }),
        _ => AlgNode::CommutatorNode(Commutator { a, b }),
    };
    let (input, amount) = parse_optional_amount_suffix(input)?;
    if let 1 = amount {
        return Ok((input, alg_node));
    }
""")
R("pa-cc-else", P, """    if amount == 1 {
        return Ok((input, alg_node));
    }
    let grouping = Grouping {
        alg: Alg {
            nodes: vec![alg_node],
        }
        .into(),
        amount,
    };
    Ok((input, grouping.into()))""", """    let alg_node = if amount != 1 {
        let nodes = vec![alg_node];
        let alg = Arc::new(Alg { nodes });
        AlgNode::GroupingNode(Grouping { alg, amount })
    } else {
        alg_node
    };
    Ok((input, alg_node))""")
R("pa-node-order", P, """        into(parse_pause),
        into(parse_newline),
        into(parse_grouping),
        into(parse_commutator_or_conjugate),""", """        into(parse_grouping),
        into(parse_commutator_or_conjugate),
        into(parse_newline),
        into(parse_pause),""")
R("pa-delims", P, """    let (input, _) = tag("[")(input)?;
    let (input, a) = parse_alg(input)?;""", """    let (input, a) = nom::sequence::preceded(tag("["), parse_alg)(input)?;""")
R("pa-debug-assert", P, """    let amount_number = amount_number.unwrap_or(1);
    let (input, prime) = parse_optional_prime(input)?;
""", """    let amount_number = amount_number.unwrap_or(1);
    let (input, prime) = parse_optional_prime(input)?;
    debug_assert!(prime == 1 || prime == -1);
""")

# ---- alg.rs and the nodes
P = A + "alg.rs"
R("al-invert-loop", P, """        let nodes = self.nodes.iter().rev().map(|m| m.invert()).collect();
        Alg { nodes }""", """        let mut nodes = Vec::with_capacity(self.nodes.len());
        for node in self.nodes.iter().rev() {
            nodes.push(node.invert());
        }
        Alg { nodes }""")
R("al-invert-reverse", P, """        let nodes = self.nodes.iter().rev().map(|m| m.invert()).collect();
        Alg { nodes }""", """        let mut nodes: Vec<AlgNode> = self.nodes.iter().map(AlgNode::invert).collect();
        nodes.reverse();
        Alg { nodes }""")
R("al-invert-index", P, """        let nodes = self.nodes.iter().rev().map(|m| m.invert()).collect();
        Alg { nodes }""", """        let n = self.nodes.len();
        let nodes = (0..n).map(|i| self.nodes[n - 1 - i].invert()).collect();
        Alg { nodes }""")
R("al-delim-if", P, """        match self.nodes.last() {
            Some(AlgNode::LineCommentNode(_)) => "\\n",
            _ => "",
        }""", """        if matches!(self.nodes.last(), Some(AlgNode::LineCommentNode(_))) {
            "\\n"
        } else {
            ""
        }""")
R("al-fmt-windows", P, """        let mut previous: Option<&AlgNode> = None;
        for current in self.nodes.iter() {
            if let Some(previous) = previous {
                write!(f, "{}", space_between(previous, current))?;
            }
            write!(f, "{}", current)?;
            previous = Some(current);
        }
        Ok(())""", """        for (i, current) in self.nodes.iter().enumerate() {
            if i > 0 {
                f.write_str(space_between(&self.nodes[i - 1], current))?;
            }
            write!(f, "{current}")?;
        }
        Ok(())""")
R("al-fmt-first", P, """        let mut previous: Option<&AlgNode> = None;
        for current in self.nodes.iter() {
            if let Some(previous) = previous {
                write!(f, "{}", space_between(previous, current))?;
            }
            write!(f, "{}", current)?;
            previous = Some(current);
        }
        Ok(())""", """        let mut nodes = self.nodes.iter();
        let Some(mut previous) = nodes.next() else {
            return Ok(());
        };
        write!(f, "{}", previous)?;
        for current in nodes {
            write!(f, "{}{}", space_between(previous, current), current)?;
            previous = current;
        }
        Ok(())""")
R("al-fmt-zip", P, """        let mut previous: Option<&AlgNode> = None;
        for current in self.nodes.iter() {
            if let Some(previous) = previous {
                write!(f, "{}", space_between(previous, current))?;
            }
            write!(f, "{}", current)?;
            previous = Some(current);
        }
        Ok(())""", """        if let Some(first) = self.nodes.first() {
            first.fmt(f)?;
        }
        for pair in self.nodes.windows(2) {
            f.write_str(space_between(&pair[0], &pair[1]))?;
            pair[1].fmt(f)?;
        }
        Ok(())""")
R("al-visit-or-else", P, """        let alg = s.parse::<Alg>();
        match alg {
            Ok(alg) => Ok(alg),
            Err(_) => Err(serde::de::Error::invalid_value(Unexpected::Str(s), &self)),
        }""", """        s.parse::<Alg>()
            .map_err(|_| serde::de::Error::invalid_value(Unexpected::Str(s), &self))""")
R("al-space-nested", P, """    match (u1, u2) {
        (AlgNode::LineCommentNode(_), AlgNode::NewlineNode(_)) => "",
        (AlgNode::LineCommentNode(_), _) => "\\n",
        (AlgNode::NewlineNode(_), _) => "",
        (_, AlgNode::NewlineNode(_)) => "",
        (_, _) => " ",
    }""", """    if let AlgNode::NewlineNode(_) = u2 {
        return "";
    }
    match u1 {
        AlgNode::LineCommentNode(_) => "\\n",
        AlgNode::NewlineNode(_) => "",
        _ => " ",
    }""")
R("al-space-reorder", P, """        (AlgNode::LineCommentNode(_), AlgNode::NewlineNode(_)) => "",
        (AlgNode::LineCommentNode(_), _) => "\\n",
        (AlgNode::NewlineNode(_), _) => "",
        (_, AlgNode::NewlineNode(_)) => "",
        (_, _) => " ",""", """        (_, AlgNode::NewlineNode(_)) | (AlgNode::NewlineNode(_), _) => "",
        (AlgNode::LineCommentNode(_), _) => "\\n",
        _ => " ",""")
P = A + "alg_builder.rs"
R("ab-new-map", P, """        let fragments = match fragment {
            Some(fragment) => vec![fragment.into()],
            None => vec![],
        };
        AlgBuilder { fragments }""", """        let fragments = fragment.map(Into::into).into_iter().collect();
        AlgBuilder { fragments }""")
R("ab-new-push", P, """        let fragments = match fragment {
            Some(fragment) => vec![fragment.into()],
            None => vec![],
        };
        AlgBuilder { fragments }""", """        let mut builder = AlgBuilder { fragments: vec![] };
        if let Some(fragment) = fragment {
            builder.push(fragment);
        }
        builder""")
R("ab-loop", P, """    pub fn to_alg(mut self) -> Alg {
        // TODO: use iterators to do this more efficiently.
        let drained = self.fragments.drain(0..); // TODO: `into_iter`?
        let mapped = drained.flat_map(|fragment| match fragment {
            AlgFragment::Alg(alg) => alg.nodes.into_iter(),
            // TODO: avoid constructing `vec!`.
            AlgFragment::AlgNode(alg_node) => vec![alg_node].into_iter(),
        });
        let nodes = mapped.collect();
        Alg { nodes }""", """    pub fn to_alg(self) -> Alg {
        let mut nodes = Vec::new();
        for fragment in self.fragments {
            match fragment {
                AlgFragment::Alg(alg) => nodes.extend(alg.nodes),
                AlgFragment::AlgNode(alg_node) => nodes.push(alg_node),
            }
        }
        Alg { nodes }""")
R("ab-append", P, """    pub fn to_alg(mut self) -> Alg {
        // TODO: use iterators to do this more efficiently.
        let drained = self.fragments.drain(0..); // TODO: `into_iter`?
        let mapped = drained.flat_map(|fragment| match fragment {
            AlgFragment::Alg(alg) => alg.nodes.into_iter(),
            // TODO: avoid constructing `vec!`.
            AlgFragment::AlgNode(alg_node) => vec![alg_node].into_iter(),
        });
        let nodes = mapped.collect();
        Alg { nodes }""", """    pub fn to_alg(self) -> Alg {
        let mut nodes = vec![];
        for fragment in self.fragments.into_iter() {
            match fragment {
                AlgFragment::Alg(mut alg) => nodes.append(&mut alg.nodes),
                AlgFragment::AlgNode(alg_node) => nodes.push(alg_node),
            }
        }
        Alg { nodes }""")
R("ab-into-iter", P, """    pub fn to_alg(mut self) -> Alg {
        // TODO: use iterators to do this more efficiently.
        let drained = self.fragments.drain(0..); // TODO: `into_iter`?
        let mapped = drained.flat_map(|fragment| match fragment {""", """    pub fn to_alg(self) -> Alg {
        let mapped = self.fragments.into_iter().flat_map(|fragment| match fragment {""")
P = A + "alg_node.rs"
R("an-invert-into", P, """            AlgNode::MoveNode(move_node) => AlgNode::MoveNode(move_node.invert()),
            AlgNode::PauseNode(pause_node) => AlgNode::PauseNode(pause_node.invert()),
            AlgNode::NewlineNode(newline_node) => AlgNode::NewlineNode(newline_node.invert()),""", """            AlgNode::MoveNode(move_node) => move_node.invert().into(),
            AlgNode::PauseNode(_) | AlgNode::NewlineNode(_) => self.clone(),""")
R("an-fmt-write", P, "            AlgNode::MoveNode(move_node) => move_node.fmt(f),\n            AlgNode::PauseNode(pause_node) => pause_node.fmt(f),", "            AlgNode::MoveNode(move_node) => write!(f, \"{}\", move_node),\n            AlgNode::PauseNode(_) => f.write_str(\".\"),")
P = A + "move.rs"
R("mv-invert-helper", P, """        if self.quantum.family == _SLASH_ && self.quantum.prefix.is_none() {
            return self.clone();
        }
        Self {
            quantum: Arc::clone(&self.quantum),
            amount: -self.amount,
        }
    }
""", """        let amount = if self.is_slash() { self.amount } else { -self.amount };
        Self {
            quantum: self.quantum.clone(),
            amount,
        }
    }

    fn is_slash(&self) -> bool {
        let QuantumMove { family, prefix } = &*self.quantum;
        prefix.is_none() && family == _SLASH_
    }
""")
R("mv-invert-mut", P, """        if self.quantum.family == _SLASH_ && self.quantum.prefix.is_none() {
            return self.clone();
        }
        Self {
            quantum: Arc::clone(&self.quantum),
            amount: -self.amount,
        }""", """        let mut inverse = self.clone();
        if self.quantum.family != _SLASH_ || self.quantum.prefix.is_some() {
            inverse.amount = -inverse.amount;
        }
        inverse""")
R("mv-visit", P, """        let r#move = s.parse::<Move>();
        match r#move {
            Ok(r#move) => Ok(r#move),
            Err(_) => Err(serde::de::Error::invalid_value(Unexpected::Str(s), &self)),
        }""", """        let Ok(parsed) = Move::try_from(s) else {
            return Err(serde::de::Error::invalid_value(Unexpected::Str(s), &self));
        };
        Ok(parsed)""")
R("mv-special-match", P, """    family
        .strip_suffix(internal_suffix)
        .filter(|family| !family.is_empty())""", """    match family.strip_suffix(internal_suffix) {
        Some("") | None => None,
        Some(family) => Some(family),
    }""")
R("mv-special-len", P, """    family
        .strip_suffix(internal_suffix)
        .filter(|family| !family.is_empty())""", """    if family.len() <= internal_suffix.len() || !family.ends_with(internal_suffix) {
        return None;
    }
    Some(&family[..family.len() - internal_suffix.len()])""")
R("mv-fmt-consts", P, """        if self.quantum.family == "_SLASH_" && self.quantum.prefix.is_none() && self.amount == 1 {
            write!(f, "/")?;
            return Ok(());
        }
        if let Some(family) = special_family(&self.quantum.family, "_PLUS_") {
            let suffix = if self.amount < 0 { "-" } else { "+" };
            write!(
                f,
                "{}{}{}",
                QuantumMove {
                    family: family.to_owned(),
                    prefix: self.quantum.prefix.clone()
                },
                self.amount.abs(),
                suffix
            )?;
            return Ok(());
        }""", """        if self.amount == 1 && self.quantum.prefix.is_none() && self.quantum.family == _SLASH_ {
            return f.write_str("/");
        }
        if let Some(family) = special_family(&self.quantum.family, _PLUS_) {
            let suffix = if self.amount >= 0 { '+' } else { '-' };
            let quantum = QuantumMove::new(family, self.quantum.prefix.clone());
            return write!(f, "{quantum}{}{suffix}", self.amount.abs());
        }""")
R("mv-fmt-plusplus", P, """            let suffix = match self.amount {
                1 => Some("++"),
                -1 => Some("--"),
                _ => None,
            };
            if let Some(suffix) = suffix {
                write!(
                    f,
                    "{}{}",
                    QuantumMove {
                        family: family.to_owned(),
                        prefix: self.quantum.prefix.clone()
                    },
                    suffix
                )?;
                return Ok(());
            }""", """            if self.amount == 1 || self.amount == -1 {
                let suffix = if self.amount == 1 { "++" } else { "--" };
                if let Some(prefix) = &self.quantum.prefix {
                    write!(f, "{}", prefix)?;
                }
                return write!(f, "{}{}", family, suffix);
            }""")
R("mv-fmt-helper", P, """                QuantumMove {
                    family: family.to_owned(),
                    prefix: self.quantum.prefix.clone()
                },
                self.amount.abs(),""", """                self.quantum.with_family(family),
                self.amount.abs(),""", A + "quantum_move.rs", """impl QuantumMove {
""", """impl QuantumMove {
    pub(crate) fn with_family(&self, family: &str) -> QuantumMove {
        let mut quantum = self.clone();
        quantum.family = family.to_string();
        quantum
    }

""")
P = A + "amount.rs"
R("am-match", P, """    if amount == 1 {
        write!(f, "")
    } else if amount == -1 {
        write!(f, "'")
    } else if amount < 0 {
        write!(f, "{}'", -amount)
    } else {
        write!(f, "{}", amount)
    }""", """    match amount {
        1 => Ok(()),
        -1 => f.write_str("'"),
        amount if amount >= 0 => write!(f, "{amount}"),
        amount => write!(f, "{}'", -amount),
    }""")
R("am-parts", P, """    if amount == 1 {
        write!(f, "")
    } else if amount == -1 {
        write!(f, "'")
    } else if amount < 0 {
        write!(f, "{}'", -amount)
    } else {
        write!(f, "{}", amount)
    }""", """    let magnitude = amount.abs();
    if magnitude != 1 {
        write!(f, "{}", magnitude)?;
    }
    if amount < 0 {
        write!(f, "'")?;
    }
    Ok(())""")
P = A + "quantum_move.rs"
R("qm-fmt-match", P, """        if let Some(layers) = &self.prefix {
            layers.fmt(f)?
        };
        write!(f, "{}", self.family)""", """        match &self.prefix {
            Some(prefix) => write!(f, "{}{}", prefix, self.family),
            None => f.write_str(&self.family),
        }""")
R("qm-prefix-direct", P, """            MovePrefix::Layer(layer) => layer.fmt(f),
            MovePrefix::Range(range) => range.fmt(f),""", """            MovePrefix::Layer(MoveLayer { layer }) => write!(f, "{layer}"),
            MovePrefix::Range(MoveRange {
                outer_layer,
                inner_layer,
            }) => {
                write!(f, "{outer_layer}")?;
                write!(f, "-{inner_layer}")
            }""")
R("qm-from", P, """        let (outer_layer, inner_layer) = layers;
        MoveRange {
            outer_layer,
            inner_layer,
        }""", """        MoveRange::new(layers.0, layers.1)""")
P = A + "grouping.rs"
R("gr-invert-map", P, """            let nodes = vec![move_0.invert().into(), move_1.invert().into()];
            let alg = Arc::new(Alg { nodes });
            return Self { alg, amount: 1 };""", """            let nodes = [move_0, move_1].map(|r#move| r#move.invert().into()).to_vec();
            return Self {
                alg: Alg { nodes }.into(),
                amount: self.amount,
            };""")
R("gr-tuple-slice", P, """        if self.alg.nodes.len() == 2 && self.amount == 1 {
            // Square-1 notation
            if let AlgNode::MoveNode(move_0) = &self.alg.nodes[0] {
                if move_0.quantum == U_SQ_quantum() {
                    if let AlgNode::MoveNode(move_1) = &self.alg.nodes[1] {
                        if move_1.quantum == D_SQ_quantum() {
                            return Some((move_0, move_1));
                        }
                    }
                }
            }
        }
        None""", """        if self.amount != 1 {
            return None;
        }
        match self.alg.nodes.as_slice() {
            [AlgNode::MoveNode(move_0), AlgNode::MoveNode(move_1)]
                if move_0.quantum == U_SQ_quantum() && move_1.quantum == D_SQ_quantum() =>
            {
                Some((move_0, move_1))
            }
            _ => None,
        }""")
R("gr-fmt-early", P, """        let mut include_parentheses = true;
        if self.alg.nodes.len() == 1 {
            // Without an amount, the parentheses are all that marks the grouping.
            include_parentheses = self.amount == 1
                || !matches!(
                    self.alg.nodes[0],
                    super::AlgNode::CommutatorNode(_) | super::AlgNode::ConjugateNode(_)
                )
        } else if let Some((move_0, move_1)) = self.square1_tuple() {
            // Square-1 notation
            return write!(f, "({}, {})", move_0.amount, move_1.amount);
        }
        if include_parentheses {
            write!(f, "(")?;
        }
        write!(f, "{}", self.alg)?;
        if include_parentheses {
            write!(f, "{})", self.alg.newline_before_delimiter())?;
        }
        fmt_amount(f, self.amount)""", """        if let Some((move_0, move_1)) = self.square1_tuple() {
            // Square-1 notation
            return write!(f, "({}, {})", move_0.amount, move_1.amount);
        }
        let bare = self.amount != 1
            && matches!(
                self.alg.nodes[..],
                [AlgNode::CommutatorNode(_) | AlgNode::ConjugateNode(_)]
            );
        if bare {
            write!(f, "{}", self.alg)?;
        } else {
            write!(f, "({}{})", self.alg, self.alg.newline_before_delimiter())?;
        }
        fmt_amount(f, self.amount)""")
P = A + "conjugate.rs"
R("cj-invert", P, """        Conjugate {
            a: self.a.clone(),
            b: self.b.invert().into(),
        }""", """        let b = Arc::new(self.b.invert());
        Self {
            b,
            ..self.clone()
        }""")
R("cj-fmt-split", P, """        write!(
            f,
            "[{}{}: {}{}]",
            self.a,
            self.a.newline_before_delimiter(),
            self.b,
            self.b.newline_before_delimiter()
        )""", """        write!(f, "[{}{}: ", self.a, self.a.newline_before_delimiter())?;
        write!(f, "{}{}]", self.b, self.b.newline_before_delimiter())""")
P = A + "commutator.rs"
R("cm-invert", P, """        Commutator {
            a: self.b.clone(),
            b: self.a.clone(),
        }""", """        let Commutator { a, b } = self.clone();
        Commutator { a: b, b: a }""")
R("cm-swap", P, """        Commutator {
            a: self.b.clone(),
            b: self.a.clone(),
        }""", """        let mut inverse = self.clone();
        std::mem::swap(&mut inverse.a, &mut inverse.b);
        inverse""")
P = A + "line_comment.rs"
R("lc-find", P, """        if s.contains('\\n') {
            return Err("Line comment cannot contain a newline.".into());
        }
        Ok(LineComment { text: s.to_owned() })""", """        match s.find('\\n') {
            Some(_) => Err("Line comment cannot contain a newline.".to_owned()),
            None => Ok(LineComment { text: s.into() }),
        }""")
R("lc-chars", P, """        if s.contains('\\n') {""", """        if s.chars().any(|c| c == '\\n') {""")
R("lc-str-pattern", P, """        if s.contains('\\n') {""", """        if s.contains("\\n") {""")
P = A + "newline.rs"
R("nl-write", P, "        writeln!(f)\n", "        f.write_str(\"\\n\")\n")
R("nl-char", P, "        writeln!(f)\n", "        use std::fmt::Write;\n        f.write_char('\\n')\n")
P = A + "special_notation.rs"
R("sn-once", P, """    U_SQ_quantum_cell
        .get_or_init(|| {
            QuantumMove {
                family: "U_SQ_".to_owned(),
                prefix: None,
            }
            .into()
        })
        .clone()""", """    let cell = &U_SQ_quantum_cell;
    Arc::clone(cell.get_or_init(|| Arc::new(QuantumMove::new("U_SQ_", None))))""")

# ---- kpattern.rs
P = D + "kpattern.rs"
R("kp-get-local", P, """        assert_lt!(i, orbit.num_pieces);
        unsafe { self.get_piece_unchecked(orbit, i) }""", """        let num_pieces = orbit.num_pieces;
        assert_lt!(i, num_pieces);
        let offset = orbit.pieces_or_permutations_offset;
        unsafe { *self.packed_orbit_data.bytes_offset(offset, i) }""")
R("kp-hoist-orbit", P, """            for i in 0..orbit_info.num_pieces {
                let default_orbit = kpattern_data.get(&orbit_info.name);
                let default_orbit = match default_orbit {
                    Some(default_orbit) => default_orbit,
                    None => {
                        return Err(ConversionError::InvalidKPatternData(
                            format!("Missing data for orbit {}", orbit_info.name).into(),
                        ))
                    }
                };
""", """            if orbit_info.num_pieces == 0 {
                continue;
            }
            let Some(default_orbit) = kpattern_data.get(&orbit_info.name) else {
                return Err(ConversionError::InvalidKPatternData(
                    format!("Missing data for orbit {}", orbit_info.name).into(),
                ));
            };
            for i in 0..orbit_info.num_pieces {
""")
R("kp-ok-or-else", P, """                let default_orbit = kpattern_data.get(&orbit_info.name);
                let default_orbit = match default_orbit {
                    Some(default_orbit) => default_orbit,
                    None => {
                        return Err(ConversionError::InvalidKPatternData(
                            format!("Missing data for orbit {}", orbit_info.name).into(),
                        ))
                    }
                };
""", """                let default_orbit = kpattern_data.get(&orbit_info.name).ok_or_else(|| {
                    ConversionError::InvalidKPatternData(
                        format!("Missing data for orbit {}", orbit_info.name).into(),
                    )
                })?;
""")
R("kp-mod-if", P, """                let num_distinct_orientations = match orientation_mod {
                    0 => orbit_info.num_orientations,
                    orientation_mod => orientation_mod,
                };
                if default_orbit.orientation[i as usize] >= num_distinct_orientations {""", """                let orientation = default_orbit.orientation[usize::from(i)];
                let limit = if orientation_mod == 0 {
                    orbit_info.num_orientations
                } else {
                    orientation_mod
                };
                if !(orientation < limit) {""")
R("kp-long-helper", P, """                let is_long_enough = |values: &Vec<u8>| values.len() > i as usize;
                if !is_long_enough(&default_orbit.pieces)
                    || !is_long_enough(&default_orbit.orientation)
                    || !default_orbit
                        .orientation_mod
                        .as_ref()
                        .map_or(true, is_long_enough)
                {""", """                if !has_values_for(default_orbit, i as usize) {""", """impl From<&KPattern> for KPattern {""", """fn has_values_for(orbit: &KPatternOrbitData, index: usize) -> bool {
    if orbit.pieces.len() <= index || orbit.orientation.len() <= index {
        return false;
    }
    match &orbit.orientation_mod {
        Some(orientation_mod) => orientation_mod.len() > index,
        None => true,
    }
}

impl From<&KPattern> for KPattern {""")
R("kp-get-index", P, """                    .map_or(0, |orientation_mod| orientation_mod[i as usize]);""", """                    .and_then(|orientation_mod| orientation_mod.get(i as usize).copied())
                    .unwrap_or_default();""")
R("kp-set-after", P, """                new_kpattern.set_piece(orbit_info, i, default_orbit.pieces[i as usize]);
                new_kpattern.set_orientation_with_mod(
                    orbit_info,
                    i,
                    &match""", """                let orientation_with_mod = match""", """                                orientation_mod: orientation_mod[i as usize],
                            }
                        }
                    },
                );""", """                                orientation_mod: orientation_mod[i as usize],
                            }
                        }
                    };
                new_kpattern.set_piece(orbit_info, i, default_orbit.pieces[i as usize]);
                new_kpattern.set_orientation_with_mod(orbit_info, i, &orientation_with_mod);""")
R("kp-todata-collect", P, """            let mut pieces = Vec::with_capacity(orbit_info.num_pieces as usize);
            let mut orientation""", """            let pieces: Vec<u8> = (0..orbit_info.num_pieces)
                .map(|i| self.get_piece(orbit_info, i))
                .collect();
            let mut orientation""", """                pieces.push(self.get_piece(orbit_info, i));

""", "")
R("kp-todata-new", P, """            let mut pieces = Vec::with_capacity(orbit_info.num_pieces as usize);
            let mut orientation = Vec::with_capacity(orbit_info.num_pieces as usize);
            let mut orientation_mod = Vec::with_capacity(orbit_info.num_pieces as usize);
""", """            let mut pieces = Vec::new();
            let mut orientation = Vec::new();
            let mut orientation_mod = vec![];
""")
R("kp-todata-destructure", P, """                let orientation_with_mod = self.get_orientation_with_mod(orbit_info, i);
                orientation.push(orientation_with_mod.orientation);
                orientation_mod.push(orientation_with_mod.orientation_mod);""", """                let OrientationWithMod {
                    orientation: value,
                    orientation_mod: modulus,
                } = self.get_orientation_with_mod(orbit_info, i);
                orientation_mod.push(*modulus);
                orientation.push(*value);""")
R("kp-todata-helper", P, """            data.insert(
                orbit_info.name.clone(),
                KPatternOrbitData {
                    pieces,
                    orientation,
                    orientation_mod,
                },
            );
        }
        data
    }
""", """            let orbit_data = KPatternOrbitData {
                pieces,
                orientation,
                orientation_mod,
            };
            Self::add_orbit(&mut data, orbit_info, orbit_data);
        }
        data
    }

    fn add_orbit(data: &mut KPatternData, orbit: &KPuzzleOrbitInfo, value: KPatternOrbitData) {
        data.insert(orbit.name.to_owned(), value);
    }
""")
R("kp-json-maperr", P, """        let kpattern_data: KPatternData = match serde_json::from_slice(json_bytes) {
            Ok(kpattern_data) => kpattern_data,
            Err(e) => {
                return Err(ConversionError::InvalidKPatternData(
                    super::InvalidKPatternDataError {
                        description: format!("Could not parse JSON for KPattern data: {}", e),
                    },
                ))
            }
        };
        Self::try_from_data(&kpuzzle, &kpattern_data)""", """        let kpattern_data: KPatternData = serde_json::from_slice(json_bytes).map_err(|e| {
            ConversionError::InvalidKPatternData(InvalidKPatternDataError {
                description: format!("Could not parse JSON for KPattern data: {e}"),
            })
        })?;
        Self::try_from_data(kpuzzle, &kpattern_data)""")
R("kp-set-owm-match", P, """        if orientation_with_mod.orientation_mod == 0 {
            assert_lt!(orientation_with_mod.orientation, orbit.num_orientations)
        } else {
            assert_lt!(
                orientation_with_mod.orientation,
                orientation_with_mod.orientation_mod
            );
            assert_eq!(
                orbit.num_orientations % orientation_with_mod.orientation_mod,
                0
            );
        }""", """        let orientation = orientation_with_mod.orientation;
        match orientation_with_mod.orientation_mod {
            0 => assert_lt!(orientation, orbit.num_orientations),
            modulus => {
                assert_lt!(orientation, modulus);
                assert_eq!(orbit.num_orientations % modulus, 0);
            }
        }""")
R("kp-set-assert-swap", P, """            assert_lt!(
                orientation_with_mod.orientation,
                orientation_with_mod.orientation_mod
            );
            assert_eq!(
                orbit.num_orientations % orientation_with_mod.orientation_mod,
                0
            );""", """            assert_eq!(
                0,
                orbit.num_orientations % orientation_with_mod.orientation_mod
            );
            assert!(
                orientation_with_mod.orientation_mod > orientation_with_mod.orientation
            );""")
R("kp-apply-inline", P, """                let new_packed_orientation_with_mod = {
                    orbit_info
                        .orientation_packer
                        .transform(previous_packed_orientation_with_mod, unsafe {
                            transformation.get_orientation_delta_unchecked(orbit_info, i)
                        })
                };
""", """                let delta = unsafe { transformation.get_orientation_delta_unchecked(orbit_info, i) };
                let packer = &orbit_info.orientation_packer;
                let new_packed_orientation_with_mod =
                    packer.transform(previous_packed_orientation_with_mod, delta);
""")
R("kp-apply-helper", P, """            // TODO: optimization when either value is the identity.
            for i in 0..orbit_info.num_pieces {
                let transformation_idx =
                    unsafe { transformation.get_permutation_idx_unchecked(orbit_info, i) };
""", """            self.apply_to_orbit(orbit_info, transformation, into_kpattern);
        }
    }

    fn apply_to_orbit(
        &self,
        orbit_info: &KPuzzleOrbitInfo,
        transformation: &KTransformation,
        into_kpattern: &mut KPattern,
    ) {
        {
            for i in 0..orbit_info.num_pieces {
                let transformation_idx =
                    unsafe { transformation.get_permutation_idx_unchecked(orbit_info, i) };
""")
R("kp-apply-two-loops", P, """                unsafe { into_kpattern.set_piece_unchecked(orbit_info, i, new_piece_value) };

""", """                unsafe { into_kpattern.set_piece_unchecked(orbit_info, i, new_piece_value) };
            }
            for i in 0..orbit_info.num_pieces {
                let transformation_idx =
                    unsafe { transformation.get_permutation_idx_unchecked(orbit_info, i) };
""")
R("kp-apply-order", P, """                let new_piece_value =
                    unsafe { self.get_piece_unchecked(orbit_info, transformation_idx) };
                unsafe { into_kpattern.set_piece_unchecked(orbit_info, i, new_piece_value) };

""", "", """                into_kpattern.set_packed_orientation_with_mod_unchecked(
                    orbit_info,
                    i,
                    new_packed_orientation_with_mod,
                );
""", """                into_kpattern.set_packed_orientation_with_mod_unchecked(
                    orbit_info,
                    i,
                    new_packed_orientation_with_mod,
                );
                unsafe {
                    let new_piece_value = self.get_piece_unchecked(orbit_info, transformation_idx);
                    into_kpattern.set_piece_unchecked(orbit_info, i, new_piece_value)
                };
""")
R("kp-apply-while", P, """            for i in 0..orbit_info.num_pieces {
                let transformation_idx""", """            let mut next = 0;
            while next < orbit_info.num_pieces {
                let i = next;
                next += 1;
                let transformation_idx""")
R("kp-alg-map", P, """        let transformation = self
            .packed_orbit_data
            .kpuzzle
            .transformation_from_alg(alg)?;
        Ok(self.apply_transformation(&transformation))""", """        self.kpuzzle()
            .transformation_from_alg(alg)
            .map(|transformation| self.apply_transformation(&transformation))""")
R("kp-move-match", P, """        let transformation = self.kpuzzle().transformation_from_move(m)?;
        Ok(self.apply_transformation(&transformation))""", """        match self.kpuzzle().transformation_from_move(m) {
            Ok(transformation) => Ok(self.apply_transformation(&transformation)),
            Err(error) => Err(error),
        }""")
R("kp-buffer-match", P, """        if self.a_is_current {
            self.a
                .apply_transformation_into(transformation, &mut self.b);
        } else {
            self.b
                .apply_transformation_into(transformation, &mut self.a);
        }
        self.a_is_current = !self.a_is_current""", """        let (from, into) = match self.a_is_current {
            true => (&self.a, &mut self.b),
            false => (&self.b, &mut self.a),
        };
        from.apply_transformation_into(transformation, into);
        self.a_is_current ^= true;""")
R("kp-buffer-toggle-in-branch", P, """                .apply_transformation_into(transformation, &mut self.b);
        } else {
            self.b
                .apply_transformation_into(transformation, &mut self.a);
        }
        self.a_is_current = !self.a_is_current""", """                .apply_transformation_into(transformation, &mut self.b);
            self.a_is_current = false;
        } else {
            self.b
                .apply_transformation_into(transformation, &mut self.a);
            self.a_is_current = true;
        }""")
R("kp-buffer-current", P, """        if self.a_is_current {
            &self.a
        } else {
            &self.b
        }""", """        if !self.a_is_current {
            return &self.b;
        }
        &self.a""")
R("kp-debug-direct", P, """            .field("kpattern_data", &self.to_data())
            .finish()""", """            .field("kpattern_data", &{
                let data = self.to_data();
                data
            })
            .finish()""")
# ---- ktransformation.rs
P = D + "ktransformation.rs"
R("kt-hoist", P, """                if orbit.permutation.len() <= i as usize
                    || orbit.orientation_delta.len() <= i as usize
                {""", """                let index = usize::from(i);
                let shortest = orbit.permutation.len().min(orbit.orientation_delta.len());
                if index >= shortest {""")
R("kt-get-slices", P, """                if orbit.permutation.len() <= i as usize
                    || orbit.orientation_delta.len() <= i as usize
                {
                    return Err(ConversionError::InvalidKTransformationData(
                        format!("Not enough values for orbit {}", orbit_info.name).into(),
                    ));
                }
                if orbit.permutation[i as usize] >= orbit_info.num_pieces
                    || orbit.orientation_delta[i as usize] >= orbit_info.num_orientations
                {""", """                let (Some(&permutation_idx), Some(&orientation_delta)) = (
                    orbit.permutation.get(i as usize),
                    orbit.orientation_delta.get(i as usize),
                ) else {
                    return Err(ConversionError::InvalidKTransformationData(
                        format!("Not enough values for orbit {}", orbit_info.name).into(),
                    ));
                };
                if permutation_idx >= orbit_info.num_pieces
                    || orientation_delta >= orbit_info.num_orientations
                {""", """                    orbit.permutation[i as usize],
                );
""", """                    permutation_idx,
                );
""", """                    orbit.orientation_delta[i as usize],
                );
            }
        }
        Ok""", """                    orientation_delta,
                );
            }
        }
        Ok""")
R("kt-error-helper", P, """                    return Err(ConversionError::InvalidKTransformationData(
                        format!("Not enough values for orbit {}", orbit_info.name).into(),
                    ));""", """                    return Err(not_enough_values(orbit_info));""", """struct KPuzzleDebug {""", """fn not_enough_values(orbit_info: &KPuzzleOrbitInfo) -> ConversionError {
    let description = format!("Not enough values for orbit {}", orbit_info.name);
    ConversionError::InvalidKTransformationData(description.into())
}

struct KPuzzleDebug {""")
R("kt-missing-hoist", P, """            for i in 0..orbit_info.num_pieces {
                let orbit = ktransformation_data.get(&orbit_info.name);
                let orbit = match orbit {""", """            let found = ktransformation_data.get(&orbit_info.name);
            for i in 0..orbit_info.num_pieces {
                let orbit = match found {""")
R("kt-range-and", P, """                if orbit.permutation[i as usize] >= orbit_info.num_pieces
                    || orbit.orientation_delta[i as usize] >= orbit_info.num_orientations
                {""", """                let in_range = orbit.permutation[i as usize] < orbit_info.num_pieces
                    && orbit.orientation_delta[i as usize] < orbit_info.num_orientations;
                if !in_range {""")
R("kt-set-order", P, """                new_ktransformation.set_permutation_idx(
                    orbit_info,
                    i,
                    orbit.permutation[i as usize],
                );
                new_ktransformation.set_orientation_delta(
                    orbit_info,
                    i,
                    orbit.orientation_delta[i as usize],
                );""", """                let delta = orbit.orientation_delta[i as usize];
                let idx = orbit.permutation[i as usize];
                new_ktransformation.set_orientation_delta(orbit_info, i, delta);
                new_ktransformation.set_permutation_idx(orbit_info, i, idx);""")
R("kt-todata-collect", P, """            let mut permutation = Vec::with_capacity(orbit_info.num_pieces as usize);
            let mut orientation_delta = Vec::with_capacity(orbit_info.num_pieces as usize);

            for i in 0..orbit_info.num_pieces {
                permutation.push(self.get_permutation_idx(orbit_info, i));
                orientation_delta.push(self.get_orientation_delta(orbit_info, i));
            }
""", """            let indices = 0..orbit_info.num_pieces;
            let permutation = indices
                .clone()
                .map(|i| self.get_permutation_idx(orbit_info, i))
                .collect();
            let orientation_delta = indices
                .map(|i| self.get_orientation_delta(orbit_info, i))
                .collect();
""")
R("kt-todata-unzip", P, """            let mut permutation = Vec::with_capacity(orbit_info.num_pieces as usize);
            let mut orientation_delta = Vec::with_capacity(orbit_info.num_pieces as usize);

            for i in 0..orbit_info.num_pieces {
                permutation.push(self.get_permutation_idx(orbit_info, i));
                orientation_delta.push(self.get_orientation_delta(orbit_info, i));
            }
""", """            let (permutation, orientation_delta) = (0..orbit_info.num_pieces)
                .map(|i| {
                    (
                        self.get_permutation_idx(orbit_info, i),
                        self.get_orientation_delta(orbit_info, i),
                    )
                })
                .unzip();
""")
R("kt-todata-fold", P, """        let mut data = KTransformationData::new();
        for orbit_info in self.kpuzzle().orbit_info_iter() {
            let mut permutation""", """        self.kpuzzle().orbit_info_iter().map(|orbit_info| {
            let mut permutation""", """            data.insert(
                orbit_info.name.clone(),
                KTransformationOrbitData {
                    permutation,
                    orientation_delta,
                },
            );
        }
        data
    }""", """            (
                orbit_info.name.clone(),
                KTransformationOrbitData {
                    permutation,
                    orientation_delta,
                },
            )
        }).collect()
    }""")
R("kt-apply-checked-helper", P, """                // TODO: lookup table?
                let new_orientation_delta = (previous_orientation_delta
                    + unsafe { transformation.get_orientation_delta_unchecked(orbit_info, i) })
                    % orbit_info.num_orientations;""", """                let applied = unsafe { transformation.get_orientation_delta_unchecked(orbit_info, i) };
                let new_orientation_delta =
                    add_modulo(previous_orientation_delta, applied, orbit_info.num_orientations);""", """struct KPuzzleDebug {""", """fn add_modulo(a: u8, b: u8, modulus: u8) -> u8 {
    (a + b) % modulus
}

struct KPuzzleDebug {""")
R("kt-apply-order", P, """                unsafe {
                    into_ktransformation.set_permutation_idx_unchecked(
                        orbit_info,
                        i,
                        new_piece_permutation,
                    )
                };
""", "", """                unsafe {
                    into_ktransformation.set_orientation_delta_unchecked(
                        orbit_info,
                        i,
                        new_orientation_delta,
                    )
                };""", """                unsafe {
                    into_ktransformation.set_permutation_idx_unchecked(
                        orbit_info,
                        i,
                        new_piece_permutation,
                    );
                    into_ktransformation.set_orientation_delta_unchecked(
                        orbit_info,
                        i,
                        new_orientation_delta,
                    );
                };""")
R("kt-invert-local", P, """                let from_idx = self.get_permutation_idx(orbit_info, i);
                new_ktransformation.set_permutation_idx(orbit_info, from_idx, i);
                new_ktransformation.set_orientation_delta(
                    orbit_info,
                    from_idx,
                    (num_orientations - self.get_orientation_delta(orbit_info, i))
                        .rem_euclid(num_orientations),
                )""", """                let delta = self.get_orientation_delta(orbit_info, i);
                let inverse_delta = (num_orientations - delta) % num_orientations;
                let from_idx = self.get_permutation_idx(orbit_info, i);
                new_ktransformation.set_orientation_delta(orbit_info, from_idx, inverse_delta);
                new_ktransformation.set_permutation_idx(orbit_info, from_idx, i);""")
R("kt-invert-if", P, """                    (num_orientations - self.get_orientation_delta(orbit_info, i))
                        .rem_euclid(num_orientations),""", """                    match self.get_orientation_delta(orbit_info, i) {
                        0 => 0,
                        delta => num_orientations - delta,
                    },""")
R("kt-multiply-match", P, """        if amount == 1 {
            return self.clone();
        }
        if amount < 0 {
            return self.invert().self_multiply(-amount);
        }
        if amount == 0 {
            // TODO: use cached identity transformations from `KPuzzle`???
            return self.kpuzzle().identity_transformation();
        }
""", """        match amount {
            1 => return self.clone(),
            0 => return self.kpuzzle().identity_transformation(),
            negative if negative < 0 => return self.invert().self_multiply(-negative),
            _ => {}
        }
""")
R("kt-multiply-zero-first", P, """        if amount == 1 {
            return self.clone();
        }
        if amount < 0 {
            return self.invert().self_multiply(-amount);
        }
        if amount == 0 {
            // TODO: use cached identity transformations from `KPuzzle`???
            return self.kpuzzle().identity_transformation();
        }
""", """        if amount == 0 {
            self.kpuzzle().identity_transformation()
        } else if amount < 0 {
            self.invert().self_multiply(-amount)
        } else if amount == 1 {
            self.clone()
        } else {
            self.multiply_positive(amount)
        }
    }

    fn multiply_positive(&self, amount: Amount) -> Self {
""")
R("kt-multiply-halves", P, """        let twice_halfish = if amount == 2 {
            // We'd share this `apply_transformation` with the other branch, but that triggers a bug in the borrow checker(!)
            // https://github.com/rust-lang/rust/issues/54663
            self.apply_transformation(self)
        } else {
            let halfish = self.self_multiply(amount / 2);
            halfish.apply_transformation(&halfish)
        };
        if amount % 2 == 0 {
            twice_halfish
        } else {
            self.apply_transformation(&twice_halfish)
        }""", """        let halfish = self.self_multiply(amount / 2);
        let twice_halfish = halfish.apply_transformation(&halfish);
        if amount % 2 == 1 {
            return self.apply_transformation(&twice_halfish);
        }
        twice_halfish""")
R("kt-multiply-bits", P, """        if amount % 2 == 0 {
            twice_halfish
        } else {
            self.apply_transformation(&twice_halfish)
        }""", """        if amount & 1 == 1 {
            self.apply_transformation(&twice_halfish)
        } else {
            twice_halfish
        }""")
R("kt-multiply-square", P, """            let halfish = self.self_multiply(amount / 2);
            halfish.apply_transformation(&halfish)
        };""", """            let square = self.apply_transformation(self);
            square.self_multiply(amount / 2)
        };""")
R("kt-eq-data", P, "unsafe { self.byte_slice() == other.byte_slice() }", "self.packed_orbit_data == other.packed_orbit_data")
R("kt-buffer-helper", P, """        self.a_is_current = !self.a_is_current
    }
""", """        self.toggle();
    }

    fn toggle(&mut self) {
        self.a_is_current = !self.a_is_current;
    }
""")
# ---- macros
P = "cubing_macros/src/lib.rs"
R("ma-alg-helper", P, """            let message = format!(
                "Invalid alg passed to cubing::parse_alg!(…) macro. Parse error: {}",
                e
            );
            quote! { compile_error!(#message) }.into()
        }
    }
}
""", """            let message = format!(
                "Invalid alg passed to cubing::parse_alg!(…) macro. Parse error: {}",
                e
            );
            error_tokens(message)
        }
    }
}

fn error_tokens(message: String) -> TokenStream {
    quote! { compile_error!(#message) }.into()
}
""")
R("ma-alg-iflet", P, """    match alg_string.parse::<Alg>() {
        Ok(_alg) => quote! { (#alg_string).parse::<cubing::alg::Alg>().unwrap() }.into(), // TODO: construct alg data structure?
        Err(e) => {
            let message = format!(
                "Invalid alg passed to cubing::parse_alg!(…) macro. Parse error: {}",
                e
            );
            quote! { compile_error!(#message) }.into()
        }
    }""", """    if let Err(e) = alg_string.parse::<Alg>() {
        let message = format!("Invalid alg passed to cubing::parse_alg!(…) macro. Parse error: {e}");
        return quote! { compile_error!(#message) }.into();
    }
    quote! { (#alg_string).parse::<cubing::alg::Alg>().unwrap() }.into()""")
R("ma-move-prefix-fn", P, """            let move_prefix = match &r#move.quantum.prefix {
                None => quote! { None },
                Some(MovePrefix::Layer(move_layer)) => {
                    let layer = move_layer.layer;
                    quote! { Some(cubing::alg::MovePrefix::Layer(cubing::alg::MoveLayer {
                        layer: #layer,
                    })) }
                }
                Some(MovePrefix::Range(move_range)) => {
                    let outer_layer = move_range.outer_layer;
                    let inner_layer = move_range.inner_layer;""", """            let move_prefix = match &r#move.quantum.prefix {
                None => quote! { None },
                Some(MovePrefix::Layer(cubing_core::alg::MoveLayer { layer })) => {
                    quote! { Some(cubing::alg::MovePrefix::Layer(cubing::alg::MoveLayer {
                        layer: #layer,
                    })) }
                }
                Some(MovePrefix::Range(move_range)) => {
                    let (outer_layer, inner_layer) =
                        (&move_range.outer_layer, &move_range.inner_layer);""")
R("ma-move-order", P, """            let move_family = &r#move.quantum.family;
            let move_prefix""", """            let move_amount = r#move.amount;
            let move_family = r#move.quantum.family.clone();
            let move_prefix""", """            let move_amount = r#move.amount;
            // TODO""", """            // TODO""")
# ---- alg_cli
P = "alg_cli/main.rs"
R("cli-read-helper", P, """            let alg = match parse_args.alg {
                Some(alg) => alg,
                None => {
                    assert!(parse_args.stdin);
                    read_to_string(stdin()).unwrap()
                }
            };
            let exit_code""", """            let alg = alg_text(parse_args);
            let exit_code""", """            let alg = match invert_args.alg {
                Some(alg) => alg,
                None => {
                    assert!(invert_args.stdin);
                    read_to_string(stdin()).unwrap()
                }
            };
            let alg = match""", """            let alg = match""", "Alg::from_str(&alg) {\n                Ok(alg)", "Alg::from_str(&alg_text(invert_args)) {\n                Ok(alg)", "fn main() {", """fn alg_text(source: AlgSource) -> String {
    match source.alg {
        Some(alg) => alg,
        None => {
            assert!(source.stdin);
            read_to_string(stdin()).unwrap()
        }
    }
}

fn main() {""")
R("cli-unwrap-or-else", P, """            let alg = match parse_args.alg {
                Some(alg) => alg,
                None => {
                    assert!(parse_args.stdin);
                    read_to_string(stdin()).unwrap()
                }
            };
            let exit_code""", """            let from_stdin = parse_args.stdin;
            let alg = parse_args.alg.unwrap_or_else(|| {
                assert!(from_stdin);
                read_to_string(stdin()).unwrap()
            });
            let exit_code""")
R("cli-exit-branches", P, """            let exit_code = match Alg::from_str(&alg) {
                Ok(_alg) => {
                    eprintln!("Alg parsed successfully.");
                    0
                }
                Err(e) => {
                    eprintln!("Invalid alg: {}", e);
                    1
                }
            };
            exit(exit_code)""", """            if let Err(e) = alg.parse::<Alg>() {
                eprintln!("Invalid alg: {e}");
                exit(1);
            }
            eprintln!("Alg parsed successfully.");
            exit(0)""")
R("cli-invert-let-else", P, """            let alg = match Alg::from_str(&alg) {
                Ok(alg) => alg,
                Err(e) => {
                    eprintln!("Invalid alg: {}", e);
                    exit(1);
                }
            };
            println!("{}", alg.invert())""", """            let alg = Alg::from_str(&alg).unwrap_or_else(|e| {
                eprintln!("Invalid alg: {}", e);
                exit(1)
            });
            let inverse = alg.invert();
            println!("{inverse}");""")
R("cli-main-split", P, """            println!("{}", alg.invert())
        }
        AlgCLICommand::Completions""", """            print_inverse(&alg);
        }
        AlgCLICommand::Completions""", "fn main() {", """fn print_inverse(alg: &Alg) {
    println!("{}", alg.invert())
}

fn main() {""")
# ---- definition.rs, json_macros.rs
P = "cubing_core/src/kpuzzle/definition.rs"
R("df-display-fmt", P, """        write!(f, "{}", self.0)
    }""", """        f.write_str(&self.0)
    }""")
R("df-from", P, "KPuzzleOrbitName(value.to_owned())", "Self(String::from(value))")
R("df-debug-loop", P, """        write!(
            f,
            "[{}]",
            self.0
                .iter()
                .map(|n| n.to_string())
                .collect::<Vec<String>>()
                .join(", ")
        )""", """        let items: Vec<String> = self.0.iter().map(u8::to_string).collect();
        write!(f, "[{}]", items.join(", "))""")
P = "cubing_core/src/kpuzzle/json_macros.rs"
R("jm-local", P, """                    $crate::kpuzzle::KPuzzle::try_from_json(include_bytes!($file)).unwrap()
""", """                    let json: &[u8] = include_bytes!($file);
                    $crate::kpuzzle::KPuzzle::try_from_json(json).unwrap()
""")
R("jm-pattern-cell", P, """            [<$kpattern_name _kpattern_cell>]
                  .get_or_init(|| {
                    $crate::kpuzzle::KPattern::try_from_json(
                          $kpuzzle,
                          include_bytes!($file),
                      )
                      .unwrap()
                  })
""", """            let cell = &[<$kpattern_name _kpattern_cell>];
            cell.get_or_init(|| {
                match $crate::kpuzzle::KPattern::try_from_json($kpuzzle, include_bytes!($file)) {
                    Ok(kpattern) => kpattern,
                    Err(error) => panic!("{:?}", error),
                }
            })
""")

R("lm-probe-fn", D + "lookup_move.rs", """fn move_with_amount_1(""", """fn probe<'a>(
    def: &'a KPuzzleDefinition,
    candidate: &Move,
    relative_amount: i32,
) -> Option<MoveLookupResult<'a>> {
    if let Some((key_move, source)) = def.moves.get_key_value(candidate) {
        return Some(MoveLookupResult {
            key_move,
            relative_amount,
            source: MoveLookupResultSource::DirectlyDefined(source),
        });
    }
    let (key_move, source) = def.derived_moves.as_ref()?.get_key_value(candidate)?;
    Some(MoveLookupResult {
        key_move,
        relative_amount,
        source: MoveLookupResultSource::DerivedFromAlg(source),
    })
}

fn move_with_amount_1(""", """    // Exact match (e.g. y2 on clock)
    if let Some((key_move, source)) = def.moves.get_key_value(r#move) {
        return Some(MoveLookupResult {
            key_move,
            relative_amount: 1,
            source: MoveLookupResultSource::DirectlyDefined(source),
        });
    };
    if let Some(derived_moves) = &def.derived_moves {
        if let Some((key_move, source)) = derived_moves.get_key_value(r#move) {
            return Some(MoveLookupResult {
                key_move,
                relative_amount: 1,
                source: MoveLookupResultSource::DerivedFromAlg(source),
            });
        };
    }
    // Inverse match (e.g. y2' on clock)
    if let Some((key_move, source)) = def.moves.get_key_value(&r#move.invert()) {
        return Some(MoveLookupResult {
            key_move,
            relative_amount: -1,
            source: MoveLookupResultSource::DirectlyDefined(source),
        });
    };
    if let Some(derived_moves) = &def.derived_moves {
        if let Some((key_move, source)) = derived_moves.get_key_value(&r#move.invert()) {
            return Some(MoveLookupResult {
                key_move,
                relative_amount: -1,
                source: MoveLookupResultSource::DerivedFromAlg(source),
            });
        };
    }
    None
""", """    // Exact match (e.g. y2 on clock), then inverse match (e.g. y2' on clock)
    probe(def, r#move, 1).or_else(|| probe(def, &r#move.invert(), -1))
""")
R("kt-invert-pairs", D + "ktransformation.rs", """            for i in 0..orbit_info.num_pieces {
                let from_idx = self.get_permutation_idx(orbit_info, i);
                new_ktransformation.set_permutation_idx(orbit_info, from_idx, i);
                new_ktransformation.set_orientation_delta(
                    orbit_info,
                    from_idx,
                    (num_orientations - self.get_orientation_delta(orbit_info, i))
                        .rem_euclid(num_orientations),
                )
            }
""", """            let targets = (0..orbit_info.num_pieces).map(|i| {
                let delta = self.get_orientation_delta(orbit_info, i);
                (i, self.get_permutation_idx(orbit_info, i), (num_orientations - delta) % num_orientations)
            });
            for (i, from_idx, delta) in targets {
                new_ktransformation.set_permutation_idx(orbit_info, from_idx, i);
                new_ktransformation.set_orientation_delta(orbit_info, from_idx, delta);
            }
""")
R("kt-multiply-cmp", D + "ktransformation.rs", """        if amount == 1 {
            return self.clone();
        }
        if amount < 0 {
            return self.invert().self_multiply(-amount);
        }
        if amount == 0 {
            // TODO: use cached identity transformations from `KPuzzle`???
            return self.kpuzzle().identity_transformation();
        }
""", """        match amount.cmp(&0) {
            std::cmp::Ordering::Less => return self.invert().self_multiply(-amount),
            std::cmp::Ordering::Equal => return self.kpuzzle().identity_transformation(),
            std::cmp::Ordering::Greater => {}
        }
        if amount == 1 {
            return self.clone();
        }
""")
R("kt-apply-enumerated", D + "ktransformation.rs", """            for i in 0..orbit_info.num_pieces {
                let transformation_idx =
                    unsafe { transformation.get_permutation_idx_unchecked(orbit_info, i) };

                let new_piece_permutation""", """            let sources = (0..orbit_info.num_pieces).map(|i| {
                (i, unsafe { transformation.get_permutation_idx_unchecked(orbit_info, i) })
            });
            for (i, transformation_idx) in sources {
                let new_piece_permutation""")
R("kz-tfa-closure", D + "kpuzzle.rs", """            let a = transformation_from_alg(kpuzzle, &commutator.a)?;
            let b = transformation_from_alg(kpuzzle, &commutator.b)?;
            let a_prime = a.invert();
            let b_prime = b.invert();
            Ok(a.apply_transformation(&b)
                .apply_transformation(&a_prime)
                .apply_transformation(&b_prime))
""", """            let evaluate = |alg: &Alg| transformation_from_alg(kpuzzle, alg);
            let (a, b) = (evaluate(&commutator.a)?, evaluate(&commutator.b)?);
            let mut result = a.apply_transformation(&b);
            for inverse in [a.invert(), b.invert()] {
                result = result.apply_transformation(&inverse);
            }
            Ok(result)
""")
R("kz-orbits-fn", D + "kpuzzle.rs", """impl KPuzzle {
    pub fn try_new(""", """fn orbit_infos(
    definition: &KPuzzleDefinition,
) -> Result<(Vec<KPuzzleOrbitInfo>, usize), InvalidDefinitionError> {
    let mut bytes_offset = 0;
    let mut ordered_orbit_info: Vec<KPuzzleOrbitInfo> = Vec::with_capacity(definition.orbits.len());
    for orbit_definition in &definition.orbits {
        let num_orientations = orbit_definition.num_orientations;
        let num_pieces = orbit_definition.num_pieces;
        if num_orientations > MAX_NUM_ORIENTATIONS_INCLUSIVE {
            return Err(InvalidDefinitionError { description: format!("`num_orientations` for orbit {} is too large ({}). Maximum is {} for the current build." , orbit_definition.orbit_name, num_orientations, MAX_NUM_ORIENTATIONS_INCLUSIVE)});
        }
        if num_orientations == 0 {
            return Err(InvalidDefinitionError {
                description: format!(
                    "`num_orientations` for orbit {} must not be 0.",
                    orbit_definition.orbit_name
                ),
            });
        }
        if OrientationPacker::num_packed_values(num_orientations) > u8::MAX as usize {
            return Err(InvalidDefinitionError {
                description: format!(
                    "`num_orientations` for orbit {} ({}) has too many `orientation_mod` values for the current build.",
                    orbit_definition.orbit_name, num_orientations
                ),
            });
        }
        let orientations_offset = bytes_offset + usize::from(num_pieces);
        ordered_orbit_info.push(KPuzzleOrbitInfo {
            name: orbit_definition.orbit_name.clone(),
            num_pieces,
            num_orientations,
            pieces_or_permutations_offset: bytes_offset,
            orientations_offset,
            orientation_packer: OrientationPacker::new(num_orientations),
        });
        bytes_offset = orientations_offset + usize::from(num_pieces);
    }
    Ok((ordered_orbit_info, bytes_offset))
}

impl KPuzzle {
    pub fn try_new(""", """        let mut bytes_offset = 0;
        let mut ordered_orbit_info: Vec<KPuzzleOrbitInfo> = vec![];

        for orbit_definition in &definition.orbits {
            let num_orientations = orbit_definition.num_orientations;
            if num_orientations > MAX_NUM_ORIENTATIONS_INCLUSIVE {
                return Err(InvalidDefinitionError { description: format!("`num_orientations` for orbit {} is too large ({}). Maximum is {} for the current build." , orbit_definition.orbit_name, num_orientations, MAX_NUM_ORIENTATIONS_INCLUSIVE)});
            }
            if num_orientations == 0 {
                return Err(InvalidDefinitionError {
                    description: format!(
                        "`num_orientations` for orbit {} must not be 0.",
                        orbit_definition.orbit_name
                    ),
                });
            }
            if OrientationPacker::num_packed_values(num_orientations) > u8::MAX as usize {
                return Err(InvalidDefinitionError {
                    description: format!(
                        "`num_orientations` for orbit {} ({}) has too many `orientation_mod` values for the current build.",
                        orbit_definition.orbit_name, num_orientations
                    ),
                });
            }
            ordered_orbit_info.push({
                KPuzzleOrbitInfo {
                    name: orbit_definition.orbit_name.clone(),
                    num_pieces: orbit_definition.num_pieces,
                    num_orientations,
                    pieces_or_permutations_offset: bytes_offset,
                    orientations_offset: bytes_offset + (orbit_definition.num_pieces as usize),
                    orientation_packer: OrientationPacker::new(orbit_definition.num_orientations),
                }
            });
            bytes_offset += (orbit_definition.num_pieces as usize) * 2;
        }
""", """        let (ordered_orbit_info, bytes_offset) = orbit_infos(&definition)?;
""")
R("kp-buffer-tuple", D + "kpattern.rs", """        if self.a_is_current {
            self.a
                .apply_transformation_into(transformation, &mut self.b);
        } else {
            self.b
                .apply_transformation_into(transformation, &mut self.a);
        }
        self.a_is_current = !self.a_is_current
""", """        let (from, into) = if self.a_is_current {
            (&self.a, &mut self.b)
        } else {
            (&self.b, &mut self.a)
        };
        from.apply_transformation_into(transformation, into);
        self.a_is_current = !self.a_is_current
""")
R("kp-set-owm-limit", D + "kpattern.rs", """        if orientation_with_mod.orientation_mod == 0 {
            assert_lt!(orientation_with_mod.orientation, orbit.num_orientations)
        } else {
            assert_lt!(
                orientation_with_mod.orientation,
                orientation_with_mod.orientation_mod
            );
            assert_eq!(
                orbit.num_orientations % orientation_with_mod.orientation_mod,
                0
            );
        }
""", """        let OrientationWithMod {
            orientation,
            orientation_mod,
        } = *orientation_with_mod;
        let limit = match orientation_mod {
            0 => orbit.num_orientations,
            orientation_mod => {
                assert_eq!(orbit.num_orientations % orientation_mod, 0);
                orientation_mod
            }
        };
        assert_lt!(orientation, limit);
""")
R("kp-generic-json", D + "kpattern.rs", """        let kpattern_data: KPatternData = match serde_json::from_slice(json_bytes) {
            Ok(kpattern_data) => kpattern_data,
            Err(e) => {
                return Err(ConversionError::InvalidKPatternData(
                    super::InvalidKPatternDataError {
                        description: format!("Could not parse JSON for KPattern data: {}", e),
                    },
                ))
            }
        };
        Self::try_from_data(&kpuzzle, &kpattern_data)
    }
""", """        let kpattern_data = Self::data_from_json(json_bytes)
            .map_err(ConversionError::InvalidKPatternData)?;
        Self::try_from_data(kpuzzle, &kpattern_data)
    }

    fn data_from_json(json_bytes: &[u8]) -> Result<KPatternData, InvalidKPatternDataError> {
        serde_json::from_slice::<KPatternData>(json_bytes)
            .map_err(|e| format!("Could not parse JSON for KPattern data: {}", e).into())
    }
""")
R("kp-apply-orbit-fn", D + "kpattern.rs", """        for orbit_info in self.kpuzzle().orbit_info_iter() {
            // TODO: optimization when either value is the identity.
            for i in 0..orbit_info.num_pieces {
                let transformation_idx =
                    unsafe { transformation.get_permutation_idx_unchecked(orbit_info, i) };
""", """        self.kpuzzle().orbit_info_iter().for_each(|orbit_info| {
            // TODO: optimization when either value is the identity.
            (0..orbit_info.num_pieces).for_each(|i| {
                let transformation_idx =
                    unsafe { transformation.get_permutation_idx_unchecked(orbit_info, i) };
""", """                into_kpattern.set_packed_orientation_with_mod_unchecked(
                    orbit_info,
                    i,
                    new_packed_orientation_with_mod,
                );
            }
        }
""", """                into_kpattern.set_packed_orientation_with_mod_unchecked(
                    orbit_info,
                    i,
                    new_packed_orientation_with_mod,
                );
            });
        });
""")
R("op-new-mods-list", D + "orientation_packer.rs", """        for orientation_mod in 0..=(u8::MAX) {
            let factor = if orientation_mod == 0 {
                num_orientations
            } else {
                orientation_mod
            };
            if num_orientations % factor != 0 {
                continue;
            }
            packing_table""", """        let factors = std::iter::once((0, num_orientations))
            .chain((1..=u8::MAX).map(|orientation_mod| (orientation_mod, orientation_mod)));
        for (orientation_mod, factor) in factors {
            if num_orientations % factor != 0 {
                continue;
            }
            packing_table""")
R("dv-stack-helper", D + "derived_moves_validator.rs", """        self.derived_move_visit_statuses.insert(
            key_move.clone(), /* Avoid this clonse by using lifetimes? */
            DerivedMoveVisitStatus::InProgress(()),
        );
        let move""", """        self.mark(key_move, DerivedMoveVisitStatus::InProgress(()));
        let move""", """        // TODO: Would it help to save `descendant_move_keys` for something?
        self.derived_move_visit_statuses.insert(
            key_move.clone(), /* Avoid this clone by using lifetimes? */
            DerivedMoveVisitStatus::Done(()),
        );
        Ok(())
    }
""", """        // TODO: Would it help to save `descendant_move_keys` for something?
        self.mark(key_move, DerivedMoveVisitStatus::Done(()));
        Ok(())
    }

    fn mark(&mut self, key_move: &Move, status: DerivedMoveVisitStatus) {
        self.derived_move_visit_statuses
            .insert(key_move.clone(), status);
    }
""")
R("dv-node-pairs", D + "derived_moves_validator.rs", """            AlgNode::CommutatorNode(commutator) => {
                self.ancestor_move_keys_in_alg_recursive(&commutator.a, descendant_move_keys)?;

                self.ancestor_move_keys_in_alg_recursive(&commutator.b, descendant_move_keys)?
            }
""", """            AlgNode::CommutatorNode(crate::alg::Commutator { a, b }) => {
                for part in [a, b] {
                    self.ancestor_move_keys_in_alg_recursive(part, descendant_move_keys)?
                }
            }
""")
R("pa-alg-crowdable", A + "parse.rs", """    let mut previous_node: Option<&AlgNode> = None;
    for spaces_and_node in &spaces_and_nodes {
        let (preceded_by_spaces, node) = spaces_and_node;

        if !matches!(node, AlgNode::NewlineNode(_)) {
            let is_crowded = !*preceded_by_spaces
                && match previous_node {
                    Some(AlgNode::NewlineNode(_)) => false,
                    Some(AlgNode::LineCommentNode(_)) => false,
                    None => false,
                    Some(_) => true,
                };

            if is_crowded {
                // TODO issue a useful error message
                one_of(" \\n")(input)?; // TODO: is there a way to do this without re-parsing?
            }
        }

        previous_node = Some(node);
    }
""", """    let mut needs_space = false;
    for (preceded_by_spaces, node) in &spaces_and_nodes {
        let is_newline = matches!(node, AlgNode::NewlineNode(_));
        if needs_space && !is_newline && !*preceded_by_spaces {
            // TODO issue a useful error message
            one_of(" \\n")(input)?; // TODO: is there a way to do this without re-parsing?
        }
        needs_space = !is_newline && !matches!(node, AlgNode::LineCommentNode(_));
    }
""")
R("pa-cc-wrap", A + "parse.rs", """    let (input, amount) = parse_optional_amount_suffix(input)?;
    if amount == 1 {
        return Ok((input, alg_node));
    }
    let grouping = Grouping {
        alg: Alg {
            nodes: vec![alg_node],
        }
        .into(),
        amount,
    };
    Ok((input, grouping.into()))
}""", """    let (input, amount) = parse_optional_amount_suffix(input)?;
    Ok((input, with_amount(alg_node, amount)))
}

fn with_amount(alg_node: AlgNode, amount: i32) -> AlgNode {
    match amount {
        1 => alg_node,
        amount => {
            let nodes = vec![alg_node];
            AlgNode::GroupingNode(Grouping {
                alg: Arc::new(Alg { nodes }),
                amount,
            })
        }
    }
}""")
R("pa-suffix-and-then", A + "parse.rs", """    if let Some(amount_number) = amount_number {
        let (input, clock_suffix) = opt(parse_clock_suffix)(input)?;
        if let Some(clock_suffix) = clock_suffix {
            let amount = amount_number * clock_suffix.amount();
            return Ok((
                input,
                Move {
                    quantum: Arc::new(ClockSuffix::add_internal_suffix(quantum)),
                    amount,
                },
            ));
        }
    };

    let (input, prime)""", """    if let (Some(amount_number), Ok((input, clock_suffix))) =
        (amount_number, parse_clock_suffix(input))
    {
        let amount = amount_number * clock_suffix.amount();
        return Ok((
            input,
            Move {
                quantum: Arc::new(ClockSuffix::add_internal_suffix(quantum)),
                amount,
            },
        ));
    }

    let (input, prime)""")
R("al-fmt-enumerate", A + "alg.rs", """        let mut previous: Option<&AlgNode> = None;
        for current in self.nodes.iter() {
            if let Some(previous) = previous {
                write!(f, "{}", space_between(previous, current))?;
            }
            write!(f, "{}", current)?;
            previous = Some(current);
        }
        Ok(())""", """        for (i, current) in self.nodes.iter().enumerate() {
            if i > 0 {
                f.write_str(space_between(&self.nodes[i - 1], current))?;
            }
            current.fmt(f)?;
        }
        Ok(())""")
R("ab-match-loop", A + "alg_builder.rs", """        let drained = self.fragments.drain(0..); // TODO: `into_iter`?
        let mapped = drained.flat_map(|fragment| match fragment {
            AlgFragment::Alg(alg) => alg.nodes.into_iter(),
            // TODO: avoid constructing `vec!`.
            AlgFragment::AlgNode(alg_node) => vec![alg_node].into_iter(),
        });
        let nodes = mapped.collect();
        Alg { nodes }""", """        let mut alg = Alg::default();
        for fragment in std::mem::take(&mut self.fragments) {
            match fragment {
                AlgFragment::Alg(mut inner) => alg.nodes.append(&mut inner.nodes),
                AlgFragment::AlgNode(alg_node) => alg.nodes.push(alg_node),
            }
        }
        alg""")
R("gr-fmt-branches", A + "grouping.rs", """        if include_parentheses {
            write!(f, "(")?;
        }
        write!(f, "{}", self.alg)?;
        if include_parentheses {
            write!(f, "{})", self.alg.newline_before_delimiter())?;
        }
        fmt_amount""", """        if include_parentheses {
            write!(f, "({}{})", self.alg, self.alg.newline_before_delimiter())?;
        } else {
            self.alg.fmt(f)?;
        }
        fmt_amount""")
R("am-abs", A + "amount.rs", """    if amount == 1 {
        write!(f, "")
    } else if amount == -1 {
        write!(f, "'")
    } else if amount < 0 {
        write!(f, "{}'", -amount)
    } else {
        write!(f, "{}", amount)
    }""", """    let magnitude = amount.unsigned_abs();
    if magnitude != 1 {
        write!(f, "{}", magnitude)?;
    }
    if amount < 0 {
        f.write_str("'")?;
    }
    Ok(())""")
R("mv-fmt-suffix-fn", A + "move.rs", """            let suffix = if self.amount < 0 { "-" } else { "+" };
            write!(
                f,
                "{}{}{}",
                QuantumMove {
                    family: family.to_owned(),
                    prefix: self.quantum.prefix.clone()
                },
                self.amount.abs(),
                suffix
            )?;
            return Ok(());""", """            if let Some(prefix) = &self.quantum.prefix {
                write!(f, "{}", prefix)?;
            }
            f.write_str(family)?;
            write!(f, "{}", self.amount.abs())?;
            return f.write_str(if self.amount < 0 { "-" } else { "+" });""")
R("cli-is-err", "alg_cli/main.rs", """            let exit_code = match Alg::from_str(&alg) {
                Ok(_alg) => {
                    eprintln!("Alg parsed successfully.");
                    0
                }
                Err(e) => {
                    eprintln!("Invalid alg: {}", e);
                    1
                }
            };
            exit(exit_code)""", """            if let Err(e) = alg.parse::<Alg>() {
                eprintln!("Invalid alg: {}", e);
                exit(1);
            }
            eprintln!("Alg parsed successfully.");
            exit(0)""")
R("cli-text-fn", "alg_cli/main.rs", """fn main() {
    let args""", """fn alg_text(alg: Option<String>, from_stdin: bool) -> String {
    alg.unwrap_or_else(|| {
        assert!(from_stdin);
        read_to_string(stdin()).unwrap()
    })
}

fn main() {
    let args""", """            let alg = match parse_args.alg {
                Some(alg) => alg,
                None => {
                    assert!(parse_args.stdin);
                    read_to_string(stdin()).unwrap()
                }
            };
""", """            let alg = alg_text(parse_args.alg, parse_args.stdin);
""", """            let alg = match invert_args.alg {
                Some(alg) => alg,
                None => {
                    assert!(invert_args.stdin);
                    read_to_string(stdin()).unwrap()
                }
            };
""", """            let alg = alg_text(invert_args.alg, invert_args.stdin);
""")
R("ma-error-fn", "cubing_macros/src/lib.rs", """#[proc_macro]
pub fn parse_alg(""", """fn failure(message: String) -> TokenStream {
    quote! { compile_error!(#message) }.into()
}

#[proc_macro]
pub fn parse_alg(""", """            let message = format!(
                "Invalid alg passed to cubing::parse_alg!(…) macro. Parse error: {}",
                e
            );
            quote! { compile_error!(#message) }.into()
""", """            failure(format!(
                "Invalid alg passed to cubing::parse_alg!(…) macro. Parse error: {}",
                e
            ))
""", """            let message = format!(
                "Invalid move passed to cubing::parse_move!(…) macro. Parse error: {}",
                e
            );
            quote! { compile_error!(#message) }.into()
""", """            failure(format!(
                "Invalid move passed to cubing::parse_move!(…) macro. Parse error: {}",
                e
            ))
""")
R("pod-raw-generic", D + "packed_orbit_data.rs", """        let offset = main_offset + (second_offset as usize);
""", """        let second_offset: usize = second_offset.into();
        let offset = second_offset + main_offset;
""", """        let new_packed_orbit_data =
            unsafe { PackedOrbitData::new_with_uninitialized_bytes(self.kpuzzle.clone()) };
        unsafe {
            std::ptr::copy(
                self.bytes,
                new_packed_orbit_data.bytes,
                self.kpuzzle.data.num_bytes,
            )
        };
        new_packed_orbit_data
""", """        unsafe {
            let copy = Self::new_with_uninitialized_bytes(self.kpuzzle().clone());
            self.bytes.copy_to(copy.bytes, self.kpuzzle().data.num_bytes);
            copy
        }
""")
R("kz-tfm-source-fn", D + "kpuzzle.rs", """        let transformation = match move_lookup_result.source {
            // TODO: Avoid constructing this `KTransformation`.
            MoveLookupResultSource::DirectlyDefined(transformation_data) => {
                KTransformation::try_from_data(self, transformation_data).map_err(|e| {
                    InvalidMoveError {
                        description: format!("Invalid definition for move {}: {}", key_move, e),
                    }
                })?
            }
            MoveLookupResultSource::DerivedFromAlg(alg) => self.transformation_from_alg(alg)?,
        };
        Ok(transformation.self_multiply(move_lookup_result.relative_amount))
""", """        let transformation = match move_lookup_result.source {
            // TODO: Avoid constructing this `KTransformation`.
            MoveLookupResultSource::DirectlyDefined(transformation_data) => {
                match KTransformation::try_from_data(self, transformation_data) {
                    Ok(transformation) => Ok(transformation),
                    Err(e) => Err(InvalidAlgError::InvalidMove(
                        format!("Invalid definition for move {}: {}", key_move, e).into(),
                    )),
                }
            }
            MoveLookupResultSource::DerivedFromAlg(alg) => transformation_from_alg(self, alg),
        };
        transformation.map(|t| t.self_multiply(move_lookup_result.relative_amount))
""")
