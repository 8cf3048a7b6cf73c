#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays well-formed)."""
import json, os
A='cubing_core/src/alg/'
K='cubing_core/src/kpuzzle/'
P=K+'packed/'
def m(*a): return [{"name":n,"where":w} for n,w in a]
PROPS=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":mech,"hook_needed":None}}
    if state: d["anchors"]["state"]=state
    if observe: d["anchors"]["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    PROPS.append(d)

prop("C01","Parsing any text returns a result and never crashes",
 "Parsing any string as an alg, a move or a quantum move (through `parse`, `try_from` or deserialization) returns either a value or an error. It never panics, overflows an integer, loops forever or aborts, however malformed the text is.",
 ["inputs"],"every UTF-8 string, for each of the three parsable types",
 "The tests parse about thirty hand-picked strings; the guarantee is about every string, including huge numbers, lone delimiters, deep nesting and non-ASCII text.",
 [A+"parse.rs",A+"line_comment.rs",A+"alg.rs",A+"move.rs",A+"quantum_move.rs"],
 m(("nom parsers with checked number conversion",A+"parse.rs"),("comment text is cut at the first newline before it is validated",A+"parse.rs parse_line_comment")),
 observe=["Alg::from_str","Move::from_str","QuantumMove::from_str"])
prop("C02","The parser accepts exactly the alg grammar and builds its structure",
 "A string parses as an alg exactly if it is in the documented alg grammar (moves with layer prefixes, amounts and primes, `/`, `++`/`--`, Clock `+`/`-` amounts, pauses, newlines, `//` comments, groupings, Square-1 tuples, commutators and conjugates with amounts, and at least one space between adjacent non-newline nodes), and the result is the node sequence, families, prefixes and signed amounts that the grammar assigns. Spaces only separate nodes; text that leaves any input unconsumed is rejected.",
 ["inputs"],"every string, and every nesting of alg nodes",
 "Tests compare a handful of strings; the mapping from text to structure has unboundedly many combinations of prefix, family, suffix, amount and nesting.",
 [A+"parse.rs",A+"special_notation.rs",A+"line_comment.rs"],
 m(("recursive-descent nom parsers",A+"parse.rs"),("crowding check between adjacent nodes",A+"parse.rs parse_alg"),("special families",A+"move.rs, "+A+"special_notation.rs")),
 observe=["Alg::from_str","Move::from_str","QuantumMove::from_str"])
prop("C03","Printing a parsed alg and parsing the result gives the same alg",
 "For every string that parses as an alg, printing the alg succeeds, and parsing the printed text gives an alg equal to the first one. The same holds for moves and quantum moves.",
 ["inputs"],"every parsable string (all node types, nestings, families, prefixes and amounts)",
 "Round trips are tested for a few strings; special notations (`/`, `++`, `+`, tuples), amounts 0, 1, -1 and nesting combine without bound.",
 [A+"parse.rs",A+"move.rs",A+"quantum_move.rs",A+"grouping.rs",A+"commutator.rs",A+"conjugate.rs",A+"amount.rs",A+"alg.rs",A+"alg_node.rs",A+"line_comment.rs",A+"newline.rs",A+"pause.rs"],
 m(("Display implementations of every node",A+"*.rs"),("spacing between nodes",A+"alg.rs"),("special notations",A+"move.rs, "+A+"grouping.rs")),
 observe=["to_string / Display of Alg, Move, QuantumMove"])
prop("C04","The printed inverse of a parsed alg always parses back",
 "For every alg obtained by parsing, printing its inverse succeeds and gives text that parses. The parsed result equals the inverse, except that newline nodes may be added where a line comment has to be ended.",
 ["inputs"],"every parsable alg, with comments and newlines at any position and depth",
 "The tests invert a few algs without comments; the failing cases need a comment that moves to the end of a nested alg or special notations with negated amounts.",
 [A+"alg.rs",A+"grouping.rs",A+"commutator.rs",A+"conjugate.rs",A+"move.rs",A+"amount.rs"],
 m(("line break after a final comment",A+"alg.rs"),("negated amounts in every notation",A+"move.rs, "+A+"amount.rs")),
 observe=["Alg::invert + Display"])
prop("C05","Inverting an alg reverses it and inverts every part",
 "The inverse of an alg is its nodes in reverse order, each inverted: move and grouping amounts are negated (`/` and pauses, newlines and comments stay the same), a commutator swaps its two parts, a conjugate inverts only its second part, and a Square-1 tuple negates both of its amounts in place. Inverting twice gives an equal alg (for amounts other than the minimum 32-bit value).",
 ["inputs"],"every alg (any length and nesting, any amount other than i32::MIN)",
 "Tests check a few short algs; the rule is about every node type at every depth.",
 [A+"alg.rs",A+"alg_node.rs",A+"move.rs",A+"grouping.rs",A+"commutator.rs",A+"conjugate.rs",A+"line_comment.rs",A+"pause.rs",A+"newline.rs"],
 m(("invert methods",A+"*.rs")),observe=["Alg::invert","Move::invert","Grouping::invert"])
prop("C06","Applying an alg equals applying its parts in order",
 "The transformation of an alg is the composition, in order, of the transformations of its nodes: pauses, newlines and comments do nothing, a grouping is the transformation of its content raised to its (possibly negative or zero) amount, a commutator [A, B] is A B A' B' and a conjugate [A: B] is A B A'. Applying an alg to a pattern is applying that transformation, and if any move inside it does not exist the whole operation is an error.",
 ["inputs","programs"],"every puzzle definition and every alg over its moves",
 "Tests apply a few short algs on three puzzles; groupings with amounts, nested commutators and unknown moves in nested positions are sampled at most once.",
 [P+"kpuzzle.rs",P+"kpattern.rs",P+"ktransformation.rs"],
 m(("recursive evaluation",P+"kpuzzle.rs transformation_from_alg_node"),("power by squaring",P+"ktransformation.rs self_multiply")),
 observe=["KPuzzle::transformation_from_alg","KPattern::apply_alg"])
prop("C07","Move lookup finds exactly the documented definition and multiple",
 "A move on a puzzle is resolved to the first of: the directly defined or derived definition with amount 1 (applied as many times as the move's amount), the directly defined or derived definition of the exact move (applied once), the directly defined or derived definition of the inverse move (applied inverted); directly defined entries win over derived ones at each step. A move with no such definition is reported as an error.",
 ["inputs","configurations"],"every puzzle definition and every move",
 "Only two of the six cases are exercised by tests (amount-1 definitions); definitions such as `y2` only exist on some puzzles.",
 [P+"lookup_move.rs",P+"kpuzzle.rs"],
 m(("ordered lookup",P+"lookup_move.rs lookup_move"),("relative amount",P+"kpuzzle.rs transformation_from_move")),
 observe=["KPuzzle::transformation_from_move","KPattern::apply_move"])
prop("C08","Recursive derived moves are rejected and accepted ones terminate",
 "A puzzle definition whose derived moves refer to themselves, directly or through any chain of groupings, commutators, conjugates and other derived moves, is rejected with an error, as is one whose derived moves use a move that does not exist. For every accepted definition, evaluating any move or alg terminates.",
 ["configurations","inputs"],"every puzzle definition (every graph of derived moves)",
 "One test tries one three-step cycle; cycles can hide behind every node type and lookup case.",
 [P+"derived_moves_validator.rs",P+"kpuzzle.rs",P+"lookup_move.rs"],
 m(("depth-first search with in-progress marks",P+"derived_moves_validator.rs visit"),("traversal of all node types",P+"derived_moves_validator.rs ancestor_move_keys_in_node")),
 state=[{"name":"derived_move_visit_statuses","meaning":"in progress / done marks of the search","where":P+"derived_moves_validator.rs"}],
 observe=["KPuzzle::try_new"])
prop("C09","Applying a transformation to a pattern follows the permutation formula",
 "After applying a transformation, position i of every orbit holds the piece that was at the position given by the transformation's permutation at i, with its orientation advanced by the transformation's orientation delta at i modulo the piece's own orientation modulus, which is preserved. Every position of every orbit is written, and neither the original pattern nor the transformation changes.",
 ["inputs","configurations"],"every puzzle, every valid pattern and transformation",
 "Tests apply a few face turns; the formula has to hold for every orbit, position, delta and orientation modulus.",
 [P+"kpattern.rs",P+"orientation_packer.rs",P+"packed_orbit_data.rs"],
 m(("per-piece loop",P+"kpattern.rs apply_transformation_into"),("lookup table",P+"orientation_packer.rs")),
 observe=["KPattern::apply_transformation","KPattern::to_data"])
prop("C10","Transformations compose, invert and multiply as group elements",
 "Composing transformation s with t gives permutation s[t[i]] and orientation (s[t[i]] + t[i]) modulo the number of orientations at every position; the identity fixes every position with delta 0; the inverse of a bijective transformation composes with it to the identity; and the n-th multiple is the n-fold composition for every amount including 0 and negatives.",
 ["inputs","configurations"],"every puzzle, all valid transformations, every amount other than i32::MIN",
 "Tests compare R, R2, R2', R4 and R5 on one puzzle.",
 [P+"ktransformation.rs",P+"kpuzzle.rs"],
 m(("composition loop",P+"ktransformation.rs apply_transformation_into"),("inverse",P+"ktransformation.rs invert"),("power by squaring",P+"ktransformation.rs self_multiply"),("identity",P+"kpuzzle.rs identity_transformation")),
 observe=["KTransformation::apply_transformation","KTransformation::invert","KPuzzle::identity_transformation"])
prop("C11","Safe code cannot read or write outside the packed bytes",
 "No sequence of calls to safe functions reads or writes memory outside the allocation of a pattern or transformation, or uses an index from data as an unchecked offset, even if orbits, patterns or transformations of different puzzles are mixed. Such a misuse panics or returns an error instead.",
 ["programs","inputs"],"every program that only uses safe functions",
 "Out-of-bounds accesses need mixed puzzles or malformed data, and usually go unnoticed when they happen.",
 [P+"packed_orbit_data.rs",P+"kpattern.rs",P+"ktransformation.rs",P+"kpuzzle.rs"],
 m(("single checked offset function",P+"packed_orbit_data.rs bytes_offset"),("range assertions in safe accessors",P+"kpattern.rs, "+P+"ktransformation.rs")),
 observe=["every safe method of KPattern, KTransformation and their buffers"])
prop("C12","Packed bytes are owned, copied and freed exactly once",
 "Every pattern and transformation owns its own allocation, made with the layout of its puzzle and freed once with the same layout. Cloning copies all bytes into a new allocation (and keeps the puzzle), so that changing one value never changes another, and no byte of a value that is handed out is uninitialized.",
 ["programs","histories"],"every sequence of clones, drops and mutations",
 "Double frees, shared buffers and uninitialized bytes are invisible to tests that compare values once.",
 [P+"packed_orbit_data.rs",P+"kpuzzle.rs",P+"ktransformation.rs",P+"kpattern.rs"],
 m(("Drop, Clone and the constructor",P+"packed_orbit_data.rs"),("layout computed at construction",P+"kpuzzle.rs try_new")),
 observe=["Clone and Drop of KPattern and KTransformation"])
prop("C13","Checked accessors enforce their documented ranges",
 "The safe accessors read and write exactly the addressed piece, permutation, orientation or delta and nothing else. They panic if the index is not below the number of pieces, if a permutation value is not below the number of pieces, if an orientation or delta is not below its modulus, or if an orientation modulus does not divide the number of orientations.",
 ["inputs","programs"],"every orbit, index and value passed to a safe accessor",
 "The tests call accessors with valid arguments only.",
 [P+"kpattern.rs",P+"ktransformation.rs",P+"packed_orbit_data.rs"],
 m(("assertions before every unchecked access",P+"kpattern.rs, "+P+"ktransformation.rs")),
 observe=["KPattern::get_*/set_*","KTransformation::get_*/set_*"])
prop("C14","Packed orientations represent every orientation and modulus faithfully",
 "For every number of orientations a puzzle may have, packing and unpacking is a bijection on the valid (orientation, modulus) pairs (modulus 0 meaning the full number of orientations, and every divisor), with no two pairs sharing a packed value. Advancing a packed value by a delta gives the packed value of (orientation + delta) modulo the effective modulus with the modulus unchanged.",
 ["configurations","inputs"],"every supported number of orientations (1 to 107), every divisor, orientation and delta",
 "One test uses 12 orientations with moduli 3 and 4.",
 [P+"orientation_packer.rs",P+"kpuzzle.rs"],
 m(("table construction",P+"orientation_packer.rs new"),("table lookups",P+"orientation_packer.rs transform/unpack/pack"),("limit on orientations",P+"kpuzzle.rs try_new")),
 observe=["KPattern::get_orientation_with_mod","KPattern::apply_transformation"])
prop("C15","Data converts to the packed form and back without loss",
 "Orbits are laid out in definition order in disjoint byte ranges that together cover the allocation. Converting valid pattern or transformation data to a value and back gives, for every orbit and position, the same piece or permutation value, orientation or delta and orientation modulus (0 if none was given).",
 ["inputs","configurations"],"every puzzle definition and all valid data for it",
 "Tests look at a few positions of three puzzles.",
 [P+"kpattern.rs",P+"ktransformation.rs",P+"kpuzzle.rs"],
 m(("offset computation",P+"kpuzzle.rs try_new"),("conversion loops",P+"kpattern.rs, "+P+"ktransformation.rs")),
 observe=["KPattern::try_from_data/to_data","KTransformation::try_from_data/to_data"])
prop("C16","Equality and hashing look at the whole state and agree",
 "Two patterns (or transformations) of a puzzle are equal exactly if all their packed bytes are equal, equal values hash equally, and buffers compare by their current value. Moves, quantum moves and algs are equal exactly if all their parts are.",
 ["inputs"],"all pairs of values of one puzzle; all pairs of algs, moves and prefixes",
 "Tests compare a few pairs; ignoring a single byte or field would still pass.",
 [P+"packed_orbit_data.rs",P+"kpattern.rs",P+"ktransformation.rs",A+"move.rs",A+"quantum_move.rs",A+"alg.rs"],
 m(("byte-wise PartialEq and Hash",P+"packed_orbit_data.rs"),("derived PartialEq/Hash",A+"*.rs")),
 observe=["==, Hash"])
prop("C17","Invalid definitions and data are errors, not panics",
 "Building a puzzle from any definition or JSON, and building a pattern or transformation from any data or JSON, returns either a value or an error and never panics: missing orbits, short lists, out-of-range values, moduli that are not divisors and unsupported numbers of orientations are reported as errors. Looking up or applying any move or alg on the result never panics either.",
 ["inputs","configurations"],"every JSON document and every definition or data value",
 "Tests only load valid definitions (and one recursive one).",
 [P+"kpuzzle.rs",P+"kpattern.rs",P+"ktransformation.rs",P+"orientation_packer.rs",P+"derived_moves_validator.rs"],
 m(("validation while converting",P+"kpattern.rs try_from_data, "+P+"ktransformation.rs try_from_data"),("orbit checks",P+"kpuzzle.rs try_new")),
 observe=["KPuzzle::try_new/try_from_json","KPattern::try_from_data/try_from_json","KTransformation::try_from_data/try_from_json"])
prop("C18","Errors say what kind of input was wrong",
 "Invalid pattern JSON or data is reported as a pattern-data error, invalid transformation JSON or data as a transformation-data error, an unknown move as an invalid-move error and unparsable text as a parse error; conversions between error types keep the cause and its description. Displaying an error shows its description, and following an error's sources always ends.",
 ["inputs","fault_sequences"],"every failing operation",
 "No test looks at error values.",
 [P+"errors.rs",P+"kpuzzle.rs",P+"kpattern.rs",P+"ktransformation.rs",A+"parse.rs"],
 m(("error enums and conversions",P+"kpuzzle.rs, "+P+"errors.rs"),("error construction",P+"kpattern.rs, "+P+"ktransformation.rs")),
 observe=["returned error values"])
prop("C19","Algs and moves are serialized as their text form",
 "Serializing an alg, move or quantum move writes exactly the string it prints as, and deserializing accepts exactly the strings that parse, giving the parsed value. Puzzle, pattern and transformation data use the documented camelCase JSON keys in both directions.",
 ["inputs"],"every alg, move and quantum move; every serialized data value",
 "Tests deserialize a few definitions and never serialize.",
 [A+"alg.rs",A+"move.rs",A+"quantum_move.rs",K+"definition.rs"],
 m(("Serialize/Deserialize through strings",A+"alg.rs, "+A+"move.rs, "+A+"quantum_move.rs"),("derived serde implementations",K+"definition.rs")),
 observe=["serde output and input"])
prop("C20","The alg and move macros agree with the runtime parser",
 "`parse_alg!` and `parse_move!` compile exactly for the strings that parse at run time, and their value equals the runtime-parsed value, including prefix, family and amount. Any other string is a compile error.",
 ["inputs","programs"],"every string literal passed to a macro",
 "The macro tests use three literals without prefixes.",
 ["cubing_macros/src/lib.rs"],
 m(("macro expansion","cubing_macros/src/lib.rs")),observe=["expanded tokens"])
prop("C21","The built-in puzzles describe the real 2x2x2 and 3x3x3",
 "Every move of the built-in puzzles is a bijection on each orbit, with orientation deltas in range whose sum is a multiple of the number of orientations, and it acts on the stickers of the cube as that move's geometric rotation does (face, slice, wide and rotation moves, consistently with each other). The default patterns are the solved states.",
 ["inputs"],"every move, orbit and position of the built-in definitions",
 "Tests use a few moves and compare a few results; a wrong entry in a table only shows for the moves that use it.",
 ["cubing_core/src/puzzles/3x3x3.kpuzzle.json","cubing_core/src/puzzles/2x2x2.kpuzzle.json","cubing_core/src/puzzles/lib.rs"],
 m(("definition tables","cubing_core/src/puzzles/*.json"),("loader mapping","cubing_core/src/puzzles/lib.rs")),
 observe=["cube3x3x3_kpuzzle","cube2x2x2_kpuzzle"])
prop("C22","Built-in and macro-loaded values are loaded once and shared",
 "Every call of a loader generated by the JSON file macros, and of the built-in puzzle functions, returns the same value, which is built from exactly the named file on first use and is safe to request from several threads at once. Different loaders never share a value.",
 ["schedules","histories"],"every order of calls, from any number of threads",
 "Tests call each loader a few times on one thread.",
 [K+"json_macros.rs","cubing_core/src/puzzles/lib.rs",A+"special_notation.rs"],
 m(("one OnceLock per loader",K+"json_macros.rs"),("shared quantum moves",A+"special_notation.rs")),
 observe=["*_kpuzzle(), *_kpattern(), *_ktransformation()"])
prop("C23","Buffers behave like repeated application",
 "After any number of transformations, the current value of a pattern or transformation buffer equals the initial value with the transformations applied one after another, and it compares equal to another buffer exactly if their current values are equal.",
 ["histories"],"every sequence of transformations applied to a buffer",
 "No test uses the buffers; a swapped role only shows after a particular number of steps.",
 [P+"kpattern.rs",P+"ktransformation.rs"],
 m(("two values and a flag",P+"kpattern.rs KPatternBuffer, "+P+"ktransformation.rs KTransformationBuffer")),
 state=[{"name":"a_is_current","meaning":"which of the two values is current","where":P+"kpattern.rs"}],
 observe=["KPatternBuffer::current","KTransformationBuffer::current"])
prop("C24","An alg builder concatenates everything pushed, in order",
 "The alg built by an alg builder consists of the initial fragment's nodes followed by the nodes of every pushed fragment, in the order pushed, with nothing added, dropped or changed. A default builder starts empty.",
 ["histories"],"every sequence of pushes of algs and nodes",
 "Tests build one long string from one kind of fragment.",
 [A+"alg_builder.rs"],
 m(("fragment list and flattening",A+"alg_builder.rs")),observe=["AlgBuilder::to_alg"])
prop("C25","The command line tool reports results by exit code and stream",
 "`alg parse` exits with 0 exactly if its argument (or standard input) parses and with a nonzero code otherwise; `alg invert` prints exactly the inverse and a newline to standard output and exits with 0, or prints nothing to standard output and exits with a nonzero code if the text does not parse. All messages go to standard error.",
 ["inputs"],"every argument or standard input text for the parse and invert subcommands",
 "The tool has no tests.",
 ["alg_cli/main.rs"],
 m(("subcommand dispatch","alg_cli/main.rs main")),observe=["exit code, stdout, stderr"])
prop("C26","The library computes without side effects or hidden state",
 "Library functions perform no input or output, start no threads or processes, do not read the environment, clock or random numbers, and keep no mutable global state other than write-once caches. Results (success or failure, and values) do not depend on hash map iteration order.",
 ["programs","histories"],"every call of every library function",
 "Tests run each call once and do not observe side effects.",
 ["cubing_core/src"],
 m(("pure functions over owned data","cubing_core/src")),observe=["process-level effects"])
prop("C27","Values can be shared and sent between threads without data races",
 "All public data types can be sent to and shared between threads, and doing so is sound: no safe function changes the bytes of a pattern or transformation, or any other shared state, through a shared reference, and no type with unsynchronized interior mutability is reachable from them.",
 ["schedules","programs"],"every program that shares values between threads through safe functions",
 "Three tests move one value to a thread and back; data races depend on schedules.",
 [P+"packed_orbit_data.rs",P+"kpattern.rs",P+"ktransformation.rs",A+"alg.rs"],
 m(("unsafe impl Send/Sync",P+"packed_orbit_data.rs"),("mutation only through &mut",P+"kpattern.rs, "+P+"ktransformation.rs")),
 observe=["Send/Sync, &self methods"])
prop("C28","The facade crate exposes the library's public names",
 "Every name that the core library publishes under alg, kpuzzle and puzzles, the two alg macros and the three JSON file macros can be used through the facade crate and refer to the same items.",
 ["programs"],"every program written against the facade crate",
 "Tests use some of the names.",
 ["cubing/src/lib.rs","cubing_core/src/lib.rs","cubing_core/src/alg.rs",K+"mod.rs",P+"mod.rs"],
 m(("re-exports","cubing/src/lib.rs")),observe=["name resolution"])
prop("C29","A line comment never contains a line break",
 "No sequence of safe operations yields a line comment whose text contains a newline: constructing one from such text is an error, any other text is kept unchanged, and the text cannot be changed afterwards.",
 ["programs","inputs"],"every program that creates line comments",
 "The tests create comments by parsing a few algs.",
 [A+"line_comment.rs",A+"parse.rs"],
 m(("validating constructor and private field",A+"line_comment.rs")),
 observe=["LineComment::try_new","LineComment::text"])
prop("C30","Converting values into nodes, prefixes and errors keeps them unchanged",
 "Every conversion between alg types (a node type into an alg node, layers and ranges into move prefixes, text into names and errors, references into owned values) and every constructor yields the variant named after its source holding exactly the given value, with outer and inner layers in the given order.",
 ["inputs"],"every value of every convertible type",
 "Tests use a few of the conversions through the parser.",
 [A+"alg_node.rs",A+"quantum_move.rs",A+"alg_builder.rs",P+"errors.rs",P+"kpuzzle.rs",K+"definition.rs"],
 m(("From implementations and constructors",A+"alg_node.rs, "+A+"quantum_move.rs, "+P+"kpuzzle.rs")),
 observe=["From/Into, constructors"])
prop("C31","Searching and applying algs is fast enough for interactive use",
 "Applying a move to a pattern takes time linear in the number of pieces of the puzzle, and parsing takes time linear in the length of the text for text without backtracking.",
 ["inputs"],"every puzzle, pattern and text","Timing depends on size and machine; tests do not measure it.",
 [P+"kpattern.rs",A+"parse.rs"],m(("lookup tables",P+"orientation_packer.rs")))
prop("C32","The f2lfast example finds short F2L solutions",
 "The F2L search example prints only algs that solve first-two-layers slots of the given scramble, shortest depth first.",
 ["inputs"],"every scramble","The example has no tests, and correctness is about search results.",
 ["cubing/examples/f2lfast/search.rs"],m(("iterative deepening","cubing/examples/f2lfast/search.rs")))
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in PROPS: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(PROPS))
