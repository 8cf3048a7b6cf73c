KT = "cubing_core/src/kpuzzle/packed/ktransformation.rs"
KP = "cubing_core/src/kpuzzle/packed/kpattern.rs"
KZ = "cubing_core/src/kpuzzle/packed/kpuzzle.rs"
PD = "cubing_core/src/kpuzzle/packed/packed_orbit_data.rs"
LM = "cubing_core/src/kpuzzle/packed/lookup_move.rs"
DV = "cubing_core/src/kpuzzle/packed/derived_moves_validator.rs"
OP = "cubing_core/src/kpuzzle/packed/orientation_packer.rs"
PA = "cubing_core/src/alg/parse.rs"
AL = "cubing_core/src/alg/alg.rs"
MV = "cubing_core/src/alg/move.rs"
GR = "cubing_core/src/alg/grouping.rs"
CJ = "cubing_core/src/alg/conjugate.rs"
CM = "cubing_core/src/alg/commutator.rs"
AB = "cubing_core/src/alg/alg_builder.rs"
LC = "cubing_core/src/alg/line_comment.rs"
AN = "cubing_core/src/alg/alg_node.rs"
QM = "cubing_core/src/alg/quantum_move.rs"
AM = "cubing_core/src/alg/amount.rs"
MA = "cubing_macros/src/lib.rs"
CLI = "alg_cli/main.rs"
CASES = [
    ("kt-delta-idx", "M", [(KT, "+ unsafe { transformation.get_orientation_delta_unchecked(orbit_info, i) })", "+ unsafe { transformation.get_orientation_delta_unchecked(orbit_info, transformation_idx) })")]),
    ("kt-mul-neg", "M", [(KT, "return self.invert().self_multiply(-amount);", "return self.invert().self_multiply(amount);")]),
    ("kt-mul-sign", "M", [(KT, "if amount < 0 {", "if amount < -1 {")]),
    ("kt-mul-order", "M", [(KT, "if amount % 2 == 0 {", "if amount % 2 != 1 {"), (KT, "self.self_multiply(amount / 2)", "self.self_multiply((amount + 1) / 2)")]),
    ("kt-inv-noidx", "M", [(KT, "(num_orientations - self.get_orientation_delta(orbit_info, i))", "(num_orientations - self.get_orientation_delta(orbit_info, from_idx))")]),
    ("kt-mul-swap", "R", [(KT, """        if amount % 2 == 0 {
            twice_halfish
        } else {
            self.apply_transformation(&twice_halfish)
        }""", """        if amount % 2 != 0 {
            self.apply_transformation(&twice_halfish)
        } else {
            twice_halfish
        }""")]),
    ("kt-mul-match", "R", [(KT, """        if amount == 1 {
            return self.clone();
        }
        if amount < 0 {
            return self.invert().self_multiply(-amount);
        }
        if amount == 0 {
            // TODO: use cached identity transformations from `KPuzzle`???
            return self.kpuzzle().identity_transformation();
        }""", """        match amount {
            1 => return self.clone(),
            0 => return self.kpuzzle().identity_transformation(),
            x if x < 0 => {
                let inv = self.invert();
                return inv.self_multiply(-x);
            }
            _ => {}
        }""")]),
    ("kt-inv-while", "R", [(KT, """            for i in 0..orbit_info.num_pieces {
                let from_idx = self.get_permutation_idx(orbit_info, i);
                new_ktransformation.set_permutation_idx(orbit_info, from_idx, i);""", """            let mut i = 0;
            while i < orbit_info.num_pieces {
                let from_idx = self.get_permutation_idx(orbit_info, i);
                new_ktransformation.set_permutation_idx(orbit_info, from_idx, i);"""),
                            (KT, """                        .rem_euclid(num_orientations),
                )
            }""", """                        .rem_euclid(num_orientations),
                );
                i += 1;
            }""")]),
    ("kt-apply-helper", "R", [(KT, """                let new_orientation_delta = (previous_orientation_delta
                    + unsafe { transformation.get_orientation_delta_unchecked(orbit_info, i) })
                    % orbit_info.num_orientations;""", """                let new_orientation_delta = add_deltas(
                    previous_orientation_delta,
                    unsafe { transformation.get_orientation_delta_unchecked(orbit_info, i) },
                    orbit_info,
                );"""),
                               (KT, "struct KPuzzleDebug {", """fn add_deltas(a: u8, b: u8, orbit_info: &KPuzzleOrbitInfo) -> u8 {
    (a + b) % orbit_info.num_orientations
}

struct KPuzzleDebug {""")]),
    ("kt-apply-reorder", "R", [(KT, """                unsafe {
                    into_ktransformation.set_permutation_idx_unchecked(
                        orbit_info,
                        i,
                        new_piece_permutation,
                    )
                };

                let previous_orientation_delta =
                    unsafe { self.get_orientation_delta_unchecked(orbit_info, transformation_idx) };
""", """                let previous_orientation_delta =
                    unsafe { self.get_orientation_delta_unchecked(orbit_info, transformation_idx) };
                unsafe {
                    into_ktransformation.set_permutation_idx_unchecked(
                        orbit_info,
                        i,
                        new_piece_permutation,
                    )
                };
""")]),
]
