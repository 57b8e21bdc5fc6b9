T = 'contract-based deductive verification: '
S = 'path-complete symbolic execution of the real Python functions against their contracts, z3'
INFO = {
 'C01': ('proof', T + 'meaning-preservation contract of optimize_rewrites per visited node; ' + S, 'All bounds, operand subtrees, traces and times. Arity unbounded where the code permits (else 2 to 6 operands); traversal by contract. Bounded replay beside it.'),
 'C02': ('proof', T + 'meaning-preservation contracts of every normal-form and lowering pass per visited node; ' + S, 'As C01. unroll_temporal_operators and decompose_intervals bounded by interval width (labelled bounded).'),
 'C03': ('proof', T + 'step contract of optimize_cse over a ghost dictionary, print obligations per kind, prefix injectivity lemma; symbolic execution with z3, Lean 4', 'Any specification set: the dictionary of earlier nodes is arbitrary within its invariant. Labels assumed unique (type checker). Bounded replay beside it.'),
 'C07': ('proof', T + 'contracts of the SMT encodings: the real to_uflia, to_qfuflia, to_qfbv and check functions build their text over ghost operands, the text is read back as SMT-LIB and proved equal to the MLTL semantics per operator; computation-length and bounded-search lemmas; run_smt_solver against stand-in solvers; ' + S, 'Any operand, any bounds, any trace and time for UFLIA and QF_UFLIA (until and release of QF_UFLIA, the bit-vector encoding and formulas with symbolic bounds: bounded by width, labelled). Correctness of the solver itself is assumed. Bounded replay with the real z3 beside it.'),
 'C04': ('proof', T + 'delay and consumption obligations on the LLVM IR of the monitor, contracts of update_propagation_delays, is_bursty and compute_scq_sizes by symbolic execution, schedule lemmas; z3', 'All bounds, delays and traces; each kind of lowered node, under each kind of parent. Sharing of a node between any number of parents by two named siblings.'),
 'C09': ('proof', T + 'contract of compute_bounds over instruction lists of any length (each further instruction, formula, contract raises its bound by at least what the loader uses; every mapped column and atomic has a place), with the contracts of the C loader; ' + S, 'Any assembly, any map, any names. The header that write_bounds_c writes and the reading of names: bounded (labelled), with the monitor rebuilt from the header under AddressSanitizer. The bounds of the Rust monitor are the same numbers; the Rust monitor itself is not covered.'),
 'C12': ('proof', T + 'contracts of parse_map_file per line (texts in the string theory), assign_signal_ids, the mapping checks, compute_atomics and the load instructions; ' + S, 'Any line name:number, any mapping and atomic table, any node. Array ranges, malformed lines, headers and generated maps: bounded enumeration (labelled bounded).'),
 'C08': ('proof', T + 'contract of type_check_expr per node kind over operands of every type: accepted only if the typing rule allows it, accepted if it demands it, type of the result, operands not retyped; ' + S, 'Any operands (all base, enumeration, structure and array types, any array size, any constant value), any interval and index. The tense search (find_operator, check_tense) is proved per node; the checks on sections and declared names are bounded (labelled).'),
 'C05': ('proof', T + 'step contracts of the expansion passes of desugar.py, of rename and of deepcopy_expr per node kind; ' + S, 'Any set contents and set size for the aggregations (sizes 1, 2, 3 and many), any symbol, body and threshold. Struct members, calls and slices: bounded to structs and slices of at most 5 elements (labelled bounded).'),
 'C06': ('proof', T + 'step contract of gen_assembly over ghost instruction tables, packing contract decoded with the layout of the loader; ' + S, 'Any node of any specification set, any table contents, all field values. Reordering of the finished listing, header and names: bounded enumeration (labelled bounded).'),
 'C10': ('proof', T + 'contract of deepcopy_program_with_context (copy isomorphic to the original, disjoint from it, the original untouched) over ghost states, copy obligations per node kind, step contract of the console stack; ' + S, 'Any field values in ghost states that hold every node kind and sharing pattern of the compiler (n = 0 to 3 members per collection); sessions by the falsifier.'),
 'C11': ('proof', T + 'printing of every node kind is read back to the same node: the real printing code over ghost operands, lexer seams as regular-language obligations, the LR tables driven from every state in which an expression is needed, real grammar actions over symbolic numbers; precedence contract of the tables; ' + S, 'Any operands, names and numbers. Declaration sections (up to 3 entries), MLTL files and float values: bounded (labelled). Whole files by the falsifier.'),
}
NA = []
