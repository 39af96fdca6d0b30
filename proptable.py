"""The property statements (tools/mkprops.py turns this table into properties.jsonl and MANIFEST.json)."""
G = "include/qlmps/one_dim_tn/mpo/mpogen/"
T = "property-based testing: "
PROPS = []
NA = []


def P(id, title, statement, over, qtext, why, files, mech, observe, tech, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mech=mech, observe=observe, tech=T + tech, note=note))


P("C01", "The operator automaton represents exactly the sum of the added terms",
  "Whatever strings of operators are added, in whatever order, the product of the generated per-site symbolic matrices equals the sum of all added terms, each counted as often as it was added and padded with the site's own identity outside its range. The recorded list of terms and its site/state bookkeeping agree with what was added.",
  ["inputs", "histories"], "every chain length, every set and order of added terms (single-site, overlapping, nested, duplicated, operators that are sums), uniform or site-dependent identities",
  "the unit tests compare a handful of hand-written chains; repeated terms and overlapping states are not sampled",
  [G + "fsm.h", G + "symb_alg/coef_op_alg.h"],
  [("terms become paths through ready/middle/final states", G + "fsm.h: FSM::AddPath"), ("paths become matrix elements", G + "fsm.h: FSM::GenMatRepr, CastFSMPathToMatRepr_")],
  "the per-site symbolic matrices returned by the generator and the recorded paths",
  "random term sets against the sum of the terms, multiplied out exactly in the free operator algebra over a prime field",
  "chains of up to 8 sites and 12 terms; coefficients are evaluated at random field points (a false match has probability below 1e-15)")
P("C02", "Compressing an operator representation never changes the operator",
  "The compressed per-site representation multiplies out to the same sum of terms as the uncompressed one, for every set of terms and every insertion order, and generating it again gives the same result. Compression never enlarges a bond, and a uniform model made of a fixed number of interaction channels never needs more states per bond than channels plus two.",
  ["inputs", "histories"], "every set and order of terms whose coefficient sits on the term's first operator (the form the operator generator produces), and every pair of adjacent matrices with coefficients on one side",
  "compression is a sequence of data-dependent row/column eliminations and tests cover about ten fixed matrices",
  [G + "fsm.h", G + "symb_alg/coef_op_alg.h", G + "sparse_mat.h"],
  [("left-to-right column and right-to-left row elimination", G + "fsm.h: FSM::GenCompressedMatRepr"), ("common coefficients, equal rows/columns and linear combinations", G + "symb_alg/coef_op_alg.h: SparOpReprMatColCompresser, SparOpReprMatRowCompresser")],
  "the compressed matrices: their product and their dimensions",
  "differential (compressed vs uncompressed vs the terms) in the free operator algebra, plus a bond-size metamorphic bound",
  "chains of up to 12 sites and 30 terms; optimality is only claimed for uniform channel models")
P("C03", "Symbolic coefficient and operator arithmetic obeys the algebra",
  "Sums, products, comparisons, coefficient extraction, text forms and numerical evaluation of symbolic coefficients and operators agree with the multiset / linear-form meaning of the symbols, independent of the order in which they were built. Matrix products, row/column combinations, sorting and common-divisor extraction on matrices of such symbols agree with the same meaning element by element.",
  ["inputs"], "every list of labels (repeated, permuted, empty), every operator built from them, every sparse matrix of such operators",
  "tests use a few constants with two labels; permutations and repeated labels are unbounded",
  [G + "symb_alg/coef_op_alg.h", G + "sparse_mat.h"],
  [("coefficient representation as a sorted label list", G + "symb_alg/coef_op_alg.h: CoefRepr"), ("operator representation as label -> coefficient map", G + "symb_alg/coef_op_alg.h: OpRepr")],
  "results of the public arithmetic, comparison, printing and evaluation functions",
  "random expressions against an independent multiset model evaluated in a prime field",
  "text forms are checked for the first 26 coefficient symbols")
P("C04", "Sparse matrices behave like the dense matrices they stand for",
  "After any history of element writes, row/column removals, swaps, permutations and copies, a sparse matrix reads back exactly like a dense matrix that went through the same history, including its shape, its null pattern and its rows and columns. Equality of two sparse matrices is equality of shape and elements, however they were built.",
  ["histories"], "every history of operations on every shape", "tests run one fixed history per operation and do not combine removals with later writes",
  [G + "sparse_mat.h"], [("element list plus index table, re-indexed on every structural change", G + "sparse_mat.h: SparMat")],
  "element reads, row/column reads, null queries, shape and equality", "stateful model-based histories against a dense model",
  "matrices up to 6x6, 25 operations, compared after every step")
P("C05", "The owning pointer vector owns each element exactly once",
  "After any history of allocation, deallocation, assignment through reference or pointer, copying, moving and self-assignment, every slot holds exactly the element last put there, copies are independent of their source and a moved-from vector is empty. Every element is destroyed exactly once and none is leaked or used after destruction.",
  ["histories"], "every history over several vectors, including self-assignment and different sizes", "ownership bugs depend on the order of operations; tests assign each once",
  ["include/qlmps/one_dim_tn/framework/duovector.h"], [("raw owning pointers with manual copy/move", "include/qlmps/one_dim_tn/framework/duovector.h: DuoVector")],
  "slot contents, sizes, emptiness, and the set of live elements", "stateful model-based histories with an instrumented element type under AddressSanitizer",
  "up to 4 vectors of up to 5 slots and 40 operations")
P("C06", "Parameter files are read exactly",
  "For every well-formed parameter file, every parameter read through the accessor of its type (mandatory, with default, or trying) has exactly the value written in the file, regardless of formatting, escapes, order, unrelated members and the order of reads. Doubles are the nearest double to the decimal text, integers and unsigned integers are exact over their whole range, and a character parameter is the first character of its string or the null character if it is empty.",
  ["inputs"], "every well-formed JSON document with a parameter object", "tests read one fixed file",
  ["include/qlmps/case_params_parser.h"], [("typed access to the parameter object", "include/qlmps/case_params_parser.h: CaseParamsParserBasic")],
  "return values of the accessors", "round trip from generated value trees through an independent serialiser", "documents of up to 7 parameters; strings include escapes and non-BMP characters")
P("C07", "Wrong, missing or damaged parameters are never accepted silently",
  "A mandatory read of a missing key or of a value that is not of the requested type (including fractional or out-of-range integers, negative unsigned integers, booleans used as numbers and one bad element in a list) ends the program with status 1 and a message naming the file, the key, the expected and the actual type; a defaulted read does the same for a bad value and returns the default only when the key is missing; a trying read returns false and never ends the program. A file that cannot be opened or has no parameter object ends the program with status 1 and names the file, and no input whatsoever corrupts memory, hangs, or makes two accessors disagree.",
  ["inputs", "fault_sequences"], "every parameter file, including truncated, byte-damaged, empty, non-JSON and absent ones, and every pair of stored value and requested type",
  "tests use one wrong-type file and never observe the fatal path",
  ["include/qlmps/case_params_parser.h", "docs/params_parser_guide.md"], [("type check and diagnostic exit", "include/qlmps/case_params_parser.h: StrictParse, TryParseStrict, TryParseSizeTVec"), ("file and top-level object check", "include/qlmps/case_params_parser.h: constructor")],
  "exit status, standard error, return values", "generated wrong-type documents, truncation and byte mutation, fatal calls observed in a child process under sanitizers",
  "malformed JSON may be reported by exception or by exit status 1; an integer written as 3.0 may be accepted or refused but never changed")
P("C08", "Label interning is a bijection that never renumbers",
  "Converting objects to labels gives equal objects the same label and different objects different labels, numbers labels consecutively from the identity in order of first appearance, and never changes a label once given. The reverse mapping lists exactly the objects by label, also for copies of the converter.",
  ["histories"], "every stream of objects, including nearly equal numbers and many repetitions", "tests convert three objects",
  [G + "fsm.h"], [("append-only hub searched linearly", G + "fsm.h: LabelConvertor")],
  "labels and reverse mapping", "random streams against an append-only list model", "streams of up to 40 objects of three types")
P("C09", "The log tools report exactly what the log says",
  "For every run log, the timing report lists every timed routine once with its exact number of calls and its total, average, maximum and minimum time, ignoring every other line, whether the log comes from a file or from standard input. The log simplifier keeps, in order and unchanged, exactly the lines that mention a site, a sweep or the simulation, for any file name.",
  ["inputs"], "every log text and file name", "the scripts have no tests at all",
  ["script/mps_timing_analyser.py", "script/mps_log_simplifier.sh"], [("line pattern and accumulation", "script/mps_timing_analyser.py: clean_log_data, timing_profile_analyser"), ("case-insensitive filter", "script/mps_log_simplifier.sh")],
  "standard output and exit status of the scripts", "Hypothesis-generated logs against an exact model", "logs of up to 60 lines, every line newline-terminated")

SI = "the headers run on a stand-in tensor library (dense, checks legs and charges); "
P("C10", "The generated matrix product operator is the Hamiltonian that was written down",
  "The matrix product operator built from any sequence of added terms, dense or in matrix form, is exactly the sum of those terms with their coefficients: identities (or the given insertion operators) between and outside the term's operators, the site's own space on every site, matching bonds and neutral tensors. Generating it a second time gives the same operator, terms with a zero coefficient contribute nothing, and the order of insertion does not matter.",
  ["inputs", "histories"], "every chain, local space (uniform or site dependent), set and order of terms, through every way of adding a term, real or complex",
  "tests check a few standard models with fixed parameters; they need the tensor library and do not run here",
  [G + "mpogen.h", G + "mpogen_impl.h", G + "fsm.h", "include/qlmps/one_dim_tn/mpo/mpo.h"],
  [("terms to labels and insertion strings", G + "mpogen_impl.h: MPOGenerator::AddTerm"), ("symbols to tensors with bond charges", G + "mpogen.h: MPOGenerator::Gen, GenMatReprMPO")],
  "the tensors of the generated MPO, contracted to a dense matrix", "random term sets against a dense sum of Kronecker products",
  SI + "up to 6 sites, total dimension 260, 10 terms; operator labels of the symbolic layer as in C01/C02")
P("C11", "Model operators and spaces represent the physics they are named after",
  "The local spaces and operators provided for spin-1/2, t-J and Hubbard models have the matrix elements, charges and operator identities (anticommutation, spin algebra, number operators, pair and spin-flip products) of the operators they are named after, also in copies, for every supported symmetry. A Hamiltonian assembled from them with fermion strings, from sites given uniformly or one by one, equals the one defined in Fock space.",
  ["inputs"], "every operator of every model and symmetry; every random set of hopping, interaction and field terms on every pair, triple or quadruple of sites",
  "tests use one Hamiltonian per model and compare ground-state energies only",
  ["include/qlmps/model_relevant/operators/operators_all.h", "include/qlmps/model_relevant/sites/model_site_base.h", "include/qlmps/site_vec.h"],
  [("operator matrices", "include/qlmps/model_relevant/operators/fermion, operators/spin"), ("site spaces", "include/qlmps/model_relevant/sites/")],
  "operator tensors and the dense Hamiltonian", "exhaustive operators plus random Hamiltonians against Jordan-Wigner matrices built independently",
  SI + "Hamiltonians on up to 5 sites")

F = "include/qlmps/one_dim_tn/"
P("C12", "States and operators survive the disk unchanged and file errors are reported",
  "Whatever sequence of dumping (with or without releasing memory), loading, copying and deallocating is performed, a tensor read back is bit for bit the tensor written last to that file and every other tensor is untouched; a whole state or operator written to a directory reads back completely, with the operator's center and canonical types. A missing or truncated file and a write that cannot be completed are reported by an exception, and a tensor whose write failed is never dropped from memory.",
  ["histories", "fault_sequences"], "every history of transfers, every tensor, every directory, and missing/truncated files, unwritable paths and a full device at every point",
  "tests write and read one state once and never inject a fault",
  [F + "framework/ten_vec.h", F + "mps/mps.h", F + "mpo/finite_mpo/finite_mpo.h", "include/qlmps/utilities.h"],
  [("single tensors", F + "framework/ten_vec.h: TenVec::LoadTen, DumpTen"), ("whole states and operators", F + "mps/mps.h: MPS::Dump, Load; " + F + "mpo/finite_mpo/finite_mpo.h: Dump, Load")],
  "tensors in memory, files, exceptions", "stateful model-based histories with injected file faults",
  SI + "the tensor byte format is the stand-in's")
P("C13", "Canonicalisation never changes the state and the canonical flags never lie",
  "After any history of centralising, partial and single-tensor canonicalisation, tensor modification or replacement, loading from disk, copying, moving and reversing, the state equals the one the history defines, and whenever a tensor is flagged left or right canonical, or lies to the left or right of a reported center, it really is an isometry of that kind. Centralising at a site reports that site as center and makes every other tensor canonical towards it.",
  ["histories"], "every state and every history of operations, including operations with only the neighbouring tensors in memory", "tests centralise freshly initialised states; stale flags only matter after a load or replacement",
  [F + "mps/finite_mps/finite_mps.h"], [("flags reset on every writable access, set by canonicalisation", F + "mps/finite_mps/finite_mps.h: operator[], operator(), LeftCanonicalize, RightCanonicalize, Centralize, LoadTen")],
  "the dense state, the tensors and the flag getters after every operation", "stateful histories against the dense state and the isometry conditions",
  SI + "up to 6 sites, 14 operations")
P("C14", "Truncation and entanglement entropy agree with the Schmidt decomposition",
  "Truncating a state yields a normalised state within the bond limits whose fidelity with the original is at least one minus the discarded Schmidt weights, keeps no fewer states than the minimum and no more than the error target needs on the first bond, and leaves the state unchanged when nothing is discarded. The entanglement entropy of any order on every bond is the one computed from the Schmidt spectrum of the normalised state, also for product states and redundant bonds, and measuring it only normalises the state.",
  ["inputs"], "every state, normalised or not, in every canonical form, every error target, bond limits and entropy order", "tests check one state with one entropy value",
  [F + "mps/finite_mps/finite_mps.h"], [("truncation sweep", F + "mps/finite_mps/finite_mps.h: TruncateMPS"), ("entropies from singular values", F + "mps/finite_mps/finite_mps.h: GetEntanglementEntropy")],
  "the dense state, bond dimensions, returned entropies", "random states against the dense Schmidt spectrum and a projection bound on the fidelity",
  SI + "up to 6 sites, total dimension 250")
P("C15", "Initial states, sums and inner products are the ones requested",
  "Initialising a state as a product state gives exactly that basis state with bonds of dimension one and the documented charges on the tensors, whatever the object held before; a random extension of product states is normalised, lives in their charge sector, contains each of them and respects the bond bound. Adding two states gives the sum of their vectors and the inner product function gives the overlap in the documented order.",
  ["inputs"], "every chain, every basis state, every set of product states of one sector, every pair of compatible states", "tests use one spin chain and compare norms",
  [F + "mps/finite_mps/finite_mps_init.h", F + "mps/finite_mps/finite_mps_ops.h"],
  [("product and random states", F + "mps/finite_mps/finite_mps_init.h: DirectStateInitMps, DirectStateInitZeroDivMps, ExtendDirectRandomInitMps"), ("direct sum and overlap", F + "mps/finite_mps/finite_mps_ops.h: FiniteMPSAdd, FiniteMPSInnerProd")],
  "dense vectors of the states", "random inputs against dense vectors",
  SI + "one open finding: the last tensor of DirectStateInitZeroDivMps carries the total charge")
P("C16", "Measured values are the expectation values of the named operators",
  "Every local, two-site, four-site and multi-site measurement, in memory or with the state on disk, returns for exactly the requested sites the expectation value of the physical operators with the given insertion operators between them, real or complex, whatever the canonical center. The result files hold the same sites and values, and measuring changes neither the state nor its files and leaves nothing in memory when the state is on disk.",
  ["inputs", "histories"], "every state, operator set, site set and order of measurements", "tests measure operators on product-like states with few site sets; the disk variants only run in a cluster workflow",
  [F + "mps/finite_mps/finite_mps_measu.h", F + "mps/finite_mps/finite_mps_measu_disk.h"],
  [("in memory", F + "mps/finite_mps/finite_mps_measu.h: MeasureOneSiteOp, MeasureTwoSiteOp, MeasureMultiSiteOp, DumpMeasuRes"), ("from disk", F + "mps/finite_mps/finite_mps_measu_disk.h: MeasureOneSiteOp, MeasureTwoSiteOpGroup, MeasureFourSiteOpGroup")],
  "returned values, result files, the state before and after", "random states and measurement sequences against dense expectation values",
  SI + "up to 8 sites; result files are compared to the 12 digits they are written with")
P("C17", "Operator algebra, compression and canonical forms of finite MPOs are exact",
  "Adding, scaling, multiplying, normalising, canonicalising, copying and taking the trace of matrix product operators gives exactly the corresponding dense operator in any order of use, and canonical flags and centers are true. Truncation stays within the bond limits, is an orthogonal projection and loses no more than the discarded operator Schmidt weights; the variational product of three or more sites, also squared, is the projection of the true product, keeps the bond limit, never gets worse than the initial operator and from a good initial operator is optimal up to the discarded weights, with its documented center.",
  ["inputs", "histories"], "every pair of operators, charged or neutral, every order of operations, every bond limit and initial operator", "the finite MPO test is an empty fixture",
  [F + "mpo/finite_mpo/finite_mpo.h", F + "mpo/finite_mpo/finite_mpo_utility.h"],
  [("algebra and canonical forms", F + "mpo/finite_mpo/finite_mpo.h: FiniteMPO"), ("exact and variational product", F + "mpo/finite_mpo/finite_mpo_utility.h: MpoProduct")],
  "dense operators, bond dimensions, flags and returned numbers", "stateful histories and random inputs against dense matrices",
  SI + "up to 5 sites; on two sites the variational product makes no sweep and is not claimed")
P("C18", "The MPO exponential is the Taylor polynomial it documents",
  "Exponentiating an operator returns a normalised operator and the norm such that their product equals the Taylor polynomial of exp(-tau H) of the requested order or of the first even order whose relative trace falls below the tolerance, within the truncation error, also when the powers are compressed variationally from the powers stored by an earlier run. The Hamiltonian is left unchanged and the bond limit is kept.",
  ["inputs"], "every operator, step, order, tolerance and sufficient bond limit", "there is no test of it",
  [F + "mpo/finite_mpo/exp_finite_mpo.h"], [("Taylor sum", F + "mpo/finite_mpo/exp_finite_mpo.h: ExpFiniteMPO")],
  "the returned operator and norm", "random inputs against dense polynomials",
  SI + "up to 5 sites; the order bound may be read as exclusive or inclusive; bond limits at least the rank of every power")

A = "include/qlmps/algorithm/"
P("C19", "The local eigensolver returns the Ritz pair of the projected Hamiltonian",
  "At every position, the effective Hamiltonian the variational algorithms apply is the projection of the full Hamiltonian onto the local space given by the environments. The Lanczos solver returns a normalised vector, its energy is the energy of that vector and the lowest value in the Krylov space of the reported dimension, never above the start's and never below the lowest eigenvalue; it stops only when its tolerance is met, the Krylov space is exhausted or the iteration limit is reached.",
  ["inputs"], "every Hermitian Hamiltonian, start vector (also eigenvectors and nearly invariant subspaces), tolerance, iteration limit and position",
  "the solver test uses one random tensor with fixed parameters and needs a tensor library; exhausted Krylov spaces never occur in it",
  [A + "vmps/lanczos_vmps_solver_impl.h", A + "lanczos_params.h"],
  [("Lanczos iteration", A + "vmps/lanczos_vmps_solver_impl.h: LanczosSolver"), ("effective Hamiltonians", A + "vmps/lanczos_vmps_solver_impl.h: eff_ham_mul_two_site_state, eff_ham_mul_single_site_state"), ("breakdown test", A + "lanczos_params.h: IsKrylovSpaceExhausted")],
  "the returned energy, iteration count and tensor", "random local problems against dense projection and dense Krylov spaces",
  SI + "for nearly invariant subspaces (off-diagonal element between 1e-15 and 1e-4 of the scale) the norm is only required to 2 per cent, as no reorthogonalisation is done")
P("C20", "The local time-evolution solver is the exponential in the Krylov space",
  "For every local effective Hamiltonian, start vector, step of either sign and solver parameters, the solver returns the exponential of the projected Hamiltonian in the Krylov space of the reported dimension applied to the start vector with its norm, so that norm, energy and charge sector are conserved. It stops only when its tolerance is met, the Krylov space is exhausted or the iteration limit is reached; in the first two cases the result is exp(-i step H) times the start vector.",
  ["inputs"], "every Hermitian Hamiltonian, start vector (also eigenvectors and nearly invariant subspaces), step, tolerance, iteration limit and position",
  "the solver test uses one random tensor with fixed parameters and needs a tensor library",
  [A + "tdvp/lanczos_expmv_solver_impl.h", A + "lanczos_params.h"],
  [("Krylov exponential", A + "tdvp/lanczos_expmv_solver_impl.h: LanczosExpmvSolver, TridiagExpme1Solver, Distance"), ("breakdown test", A + "lanczos_params.h: IsKrylovSpaceExhausted")],
  "the returned tensor and iteration count", "random local problems against dense Krylov spaces and dense exponentials",
  SI + "steps up to four inverse energy scales; for nearly invariant subspaces only a coarse comparison is made, as no reorthogonalisation is done")
P("C21", "Two-site sweeps return the energy of the state they leave and are variational",
  "Two-site variational optimisation returns the expectation value of the Hamiltonian in the resulting state (up to the truncation in the last step), not below the lowest energy of the sector and, without truncation, not above the starting energy. The state stays in its sector within the bond limits, with no more and no fewer states kept than limits and truncation error ask for, is on disk with its center at the documented site and the environments it needs to go on; continuing from them is the same as one longer run, and a fixed point of the sweeps is locally optimal on every pair of sites.",
  ["inputs", "histories"], "every Hamiltonian, start state in every sector, sweep count, bond limit, error target and solver parameters", "tests compare the final energy of a few models; the tests of these algorithms need the tensor library",
  [A + "vmps/two_site_update_finite_vmps_impl.h", A + "vmps/vmps_init.h"],
  [("sweep", A + "vmps/two_site_update_finite_vmps_impl.h: TwoSiteFiniteVMPS, TwoSiteFiniteVMPSSweep, TwoSiteFiniteVMPSUpdate"), ("environments", A + "vmps/vmps_init.h: FiniteVMPSInit, NeedGenerateRightEnvs, UpdateBoundaryEnvs")],
  "returned energy, state and environment files, dense spectrum", "random problems against the dense Hamiltonian, metamorphic continuation of runs",
  SI + "3 to 6 sites; no statement is made for zero sweeps")
P("C22", "Boundary search, noise and single-site sweeps keep the state's meaning",
  "Finding the sites a sweep has to touch leaves the state unchanged, every tensor outside canonical and every bond outside at full width; the test whether one set of quantum numbers covers another is set inclusion. The noised two-site and the single-site algorithm return energies that belong to the state they leave on disk, between the lowest energy of the sector and (without noise and truncation) the starting energy, and keep sector, center, bond limits and truncation error. Adding noise never changes the state: it enlarges the bond about to be cut by noise times what the parts of H left (right) of that bond make of the state.",
  ["inputs", "histories"], "every state with one-dimensional or full-width bonds anywhere, every noise list, bond limit and Hamiltonian", "tests use lattices whose boundaries are the trivial ones and compare converged energies",
  [A + "vmps/vmps_init.h", A + "vmps/two_site_update_noise_finite_vmps_impl.h", A + "vmps/single_site_update_finite_vmps_impl.h"],
  [("boundaries", A + "vmps/vmps_init.h: CheckAndUpdateBoundaryMPSTensors"), ("noise", A + "vmps/two_site_update_noise_finite_vmps_impl.h: TwoSiteFiniteVMPSWithNoise"), ("single site", A + "vmps/single_site_update_finite_vmps_impl.h: SingleSiteFiniteVMPS")],
  "returned energy, state files, boundaries", "random states and noise lists against dense vectors and spectra",
  SI + "single-site runs start from states canonicalised by singular value decomposition; lossy noise up to 1e-3; the bond left of the final center of the noised two-site run is not limited")
P("C23", "DMRG from renormalised operators is variational and stops safely on signals",
  "The super-block Hamiltonian built from renormalised block operators is the projection of the full Hamiltonian. A DMRG run returns the energy of the state it leaves on disk, not below the lowest of the sector and without truncation not above the starting one, keeps sector, bond limits, truncation error and center, also when bond limits change between runs. SIGUSR1/2 let it finish the current sweep, SIGINT/SIGTERM the current update; either way the state on disk is complete, has the returned energy and can be taken up again.",
  ["inputs", "histories", "crash_points"], "every Hamiltonian, start state, sequence of bond limits and moment at which a signal arrives", "the DMRG tests need the tensor library, compare converged energies and never send a signal",
  [A + "dmrg/dmrg.h", A + "dmrg/dmrg_impl.h", A + "dmrg/dmrg_init.h", A + "dmrg/operator_io.h"],
  [("block operators", A + "dmrg/dmrg_init.h: UpdateLeftBlockOps, UpdateRightBlockOps; dmrg_impl.h: DMRGExecutor::TwoSiteUpdate_"), ("preparation of environments", A + "dmrg/dmrg_init.h: DMRGInit_, InitBlockOps, UpdateBoundaryBlockOps; operator_io.h: RemoveOutOfRangeRightBlockOps"), ("signals", A + "dmrg/dmrg_impl.h: the handlers and the checks of the sweep loop")],
  "returned energy, state and environment files, dense spectrum, number of updates made after a signal", "random problems against the dense Hamiltonian; signals injected at random tensor operations",
  SI + "3 to 6 sites; after an emergency stop the state is re-centered before it is taken up again; stop requests last for the whole process by design")
P("C24", "Time evolution is unitary and its dynamic correlations are the ones requested",
  "Two-site time evolution applies the given operator with its string to the stored state, evolves it by the symmetric projector-splitting scheme (equal to exp(-iHt) wherever nothing is projected away), conserves norm, energy and charge sector when nothing is truncated, keeps the bond limits and leaves the state centered at the second site. The returned and dumped values are, for every step and site, the overlap of the kept initial state, the second operator with its string, and the evolved state, with the phase of the given energy.",
  ["inputs", "histories"], "every Hamiltonian, state, operator pair (neutral or charged, with or without strings), step, number of steps, bond limit and solver parameters",
  "the only test of it needs the tensor library and compares one chain with stored numbers",
  [A + "tdvp/two_site_update_finite_tdvp_impl.h", A + "tdvp/tdvp_evolve_params.h"],
  [("sweep", A + "tdvp/two_site_update_finite_tdvp_impl.h: TwoSiteFiniteTDVP, TwoSiteFiniteTDVPSweep, TwoSiteFiniteTDVPEvolution, SingleSiteFiniteTDVPBackwardEvolution"), ("operator and correlations", A + "tdvp/two_site_update_finite_tdvp_impl.h: ActOperatorOnMps, CalPsi1OpPsi2, DumpMeasuRes")],
  "returned and dumped correlations, the evolved and the initial state on disk", "random runs against a dense integrator, dense exponentials, conservation laws and shorter runs",
  SI + "3 to 6 sites, up to 3, rarely 9 steps; runs that pass vanishing Schmidt values are checked by conservation laws and correlations only; the switch local_op_corr (not settable by constructor, unfinished) is not covered")

M = "include/qlmps/algo_mpi/"
SIM = SI + "ranks are threads of one process of which one runs at a time; MPI and the distributed tensor calls are simulated (point-to-point order per pair of ranks, any order between ranks, buffered or synchronous sends, non-synchronising broadcasts); "
P("C25", "Distributed ground-state search equals the serial one on any number of ranks",
  "For every number of processes and every order in which messages may arrive, growing environments and applying the effective Hamiltonian over ranks equals the serial operation, and the distributed two-site, noised two-site and DMRG runs end on all ranks without deadlock or stray messages, return the energy of the state they leave on disk on the first rank and 0 on the others, keep sector, center, bond limits and truncation error, and are variational like the serial runs; local problems are solved to the same criteria as in the serial solver. Noise added over ranks leaves the state unchanged and enlarges the bond by noise times what the parts of H on that side make of the state, as in one process.",
  ["schedules", "inputs", "histories"], "every number of processes (also more than there are blocks, and one), message order, Hamiltonian, start state, bond limit and sequence of runs",
  "the distributed tests need an MPI launcher and the tensor library, run on one fixed number of processes and compare converged energies of a few models",
  [M + "vmps/", M + "dmrg/", M + "env_ten_update_master.h", M + "env_ten_update_slave.h", M + "mps_algo_order.h"],
  [("work distribution", M + "vmps/lanczos_solver_mpi_master.h: MasterLanczosSolver, master_two_site_eff_ham_mul_state; lanczos_solver_mpi_slave.h; env_ten_update_master.h, env_ten_update_slave.h"), ("sweeps", M + "vmps/two_site_update_finite_vmps_mpi_impl_master.h, two_site_update_noised_finite_vmps_mpi_impl.h, two_site_update_finite_vmps_mpi_impl_slave.h"), ("DMRG", M + "dmrg/dmrg_mpi_impl_master.h, dmrg_mpi_impl_slave.h, lanczos_dmrg_solver_mpi_master.h")],
  "energies and states of all ranks, message history of the simulator", "random problems, rank counts and seeded message schedules against dense diagonalisation and serial runs",
  SIM + "up to 7, rarely 16 ranks; all ranks are given the same operators; the bond enlarged by the last noise is not limited")
P("C26", "Distributed time evolution equals the serial scheme on any number of ranks",
  "For every number of processes and message order, the distributed exponential solver returns the normalised exponential in the Krylov space of the reported dimension under the criteria of the serial solver, and the distributed time evolution ends on all ranks, evolves the state by the same symmetric splitting scheme as the serial one (restoring the norm after truncations) and returns on the first rank, and dumps, the correlations of the initial state, the operators and the evolved state.",
  ["schedules", "inputs"], "every number of processes from two on, message order, Hamiltonian, state, operator pair, step, number of steps, bond limit and solver parameters",
  "there is no test of distributed time evolution that compares with anything but stored numbers of one chain",
  [M + "tdvp/"],
  [("solver", M + "tdvp/lanczos_expmv_solver_mpi.h: MasterLanczosExpmvSolver"), ("sweep", M + "tdvp/two_site_update_finite_tdvp_mpi_impl_master.h: MasterTwoSiteFiniteTDVP, TwoSiteFiniteTDVPSweep"), ("workers", M + "tdvp/two_site_update_finite_tdvp_mpi_impl_slave.h: SlaveTwoSiteFiniteTDVP")],
  "returned and dumped correlations, the state on disk, message history of the simulator", "random runs, rank counts and seeded message schedules against dense integrators and exponentials",
  SIM + "2 to 7, rarely 16 ranks; the state on disk is normalised, the norm of the operator applied to the state enters the correlations")
P("C27", "The progress report of a run is true",
  "Every algorithm that sweeps announces its sweeps in order and writes one line per local update, with the updated sites in the order of the sweep. The energy of every line lies in the spectrum of the sector and, while nothing is truncated, never rises; the number of kept states respects the bond limits, the truncation error the requested one wherever fewer states than allowed were kept, iterations their limit, and the noise its preset values, rates and maximum. The last line gives the returned energy and the dimension, discarded weight and entanglement entropy of the bond cut last in the state on disk; for time evolution this holds for every line.",
  ["inputs", "schedules"], "every algorithm (serial and distributed), Hamiltonian, state, noise list, bond limit and solver parameter, also when vanishing weights are kept",
  "no test reads what the sweeps print, on which users base their extrapolations and the decision to stop",
  [A + "vmps/", A + "dmrg/dmrg_impl.h", A + "tdvp/two_site_update_finite_tdvp_impl.h", M + "vmps/", M + "dmrg/dmrg_mpi_impl_master.h", M + "tdvp/two_site_update_finite_tdvp_mpi_impl_master.h"],
  [("entropy", A + "vmps/two_site_update_finite_vmps_impl.h: MeasureEE"), ("lines", A + "vmps/two_site_update_finite_vmps_impl.h: TwoSiteFiniteVMPSUpdate, and the updates of the other algorithms"), ("adaptive noise", A + "vmps/two_site_update_noise_finite_vmps_impl.h, single_site_update_finite_vmps_impl.h: the sweeps")],
  "lines on standard output, state on disk", "the report of random runs parsed back and compared with dense spectra, the Schmidt spectrum of the state on disk and, for time evolution, a dense integrator line by line",
  SIM + "3 to 6 sites; the entropy is compared where no noise was added last and, in time evolution, for normalised states; printed digits limit the comparison of truncation errors to one per cent")
