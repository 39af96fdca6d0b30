"""What each check runs (run.py) and what MANIFEST.json says about it (tools/mkmanifest.py)."""
SAN = ["-O1", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-Wno-unused-result"]
STANDIN = dict(inc=["standin"], libs=["-llapack", "-lblas"], deps=["ten.h"], kind="standin")
HARNESSES = {
    "h_sym": dict(src="h_sym.cpp", flags=SAN, kind="direct"),
    "h_params": dict(src="h_params.cpp", flags=SAN, kind="direct"),
    "h_mpo": dict(src="h_mpo.cpp", flags=SAN, **STANDIN),
    "h_mps": dict(src="h_mps.cpp", flags=SAN, **STANDIN),
    "h_meas": dict(src="h_meas.cpp", flags=SAN, **STANDIN),
    "h_fmpo": dict(src="h_fmpo.cpp", flags=SAN, **STANDIN),
    "h_gs": dict(src="h_gs.cpp", flags=SAN, **dict(STANDIN, deps=["ten.h", "gs.h"])),
    "h_dmrg": dict(src="h_dmrg.cpp", flags=SAN, **dict(STANDIN, deps=["ten.h", "gs.h"])),
    "h_tdvp": dict(src="h_tdvp.cpp", flags=SAN, **dict(STANDIN, deps=["ten.h", "gs.h", "tdvp_ref.h"])),
    "h_mpi": dict(src="h_mpi.cpp", flags=SAN + ["-pthread"], **dict(STANDIN, deps=["ten.h", "gs.h", "mpi_gen.h"])),
    "h_mpi_tdvp": dict(src="h_mpi_tdvp.cpp", flags=SAN + ["-pthread"], **dict(STANDIN, deps=["ten.h", "gs.h", "mpi_gen.h", "tdvp_ref.h", "h_tdvp.cpp"])),
    "h_report": dict(src="h_report.cpp", flags=SAN + ["-pthread"], **dict(STANDIN, deps=["ten.h", "gs.h", "tdvp_ref.h", "mpi_gen.h"])),
    "p_logtools": dict(python="p_logtools.py", kind="script"),
}
ASSUME = {
    "direct": ["the headers are exercised as they are, compiled with AddressSanitizer and UBSan and with NDEBUG as in the Release build"],
    "standin": ["the repository's headers are compiled unchanged (AddressSanitizer, UBSan, NDEBUG) on /verif/standin, a dense stand-in for the tensor library they need, which is not installed: the stand-in checks leg directions, quantum numbers and divergences of every tensor operation; defects of the real tensor library are out of scope"],
    "script": ["the scripts are run as programs with the installed python3 and bash/egrep"],
}
CHECKS = {
    "C01": dict(harnesses=["h_sym"], rule="random open chains of up to 8 sites with up to 12 terms (duplicates, shared prefixes/suffixes, site-dependent identities, operators that are themselves sums); the per-site matrices are multiplied out in the free operator algebra with coefficients evaluated at random points of a 61-bit prime field and compared with the sum of the terms; non-trivial: several terms, one spanning several sites, three or more sites"),
    "C02": dict(harnesses=["h_sym"], rule="the same chains (up to 12 sites, 30 terms), uniform channel models in random insertion order, and random pairs of adjacent matrices; compressed and uncompressed forms are multiplied out and compared, bond sizes compared; non-trivial: several overlapping terms / an inner dimension that really shrank"),
    "C03": dict(harnesses=["h_sym"], rule="random symbolic coefficients, operators and sparse matrices of them, every operation compared with an independent multiset / linear-form model; non-trivial: at least two labels or terms on each side"),
    "C04": dict(harnesses=["h_sym"], rule="random operation histories on sparse matrices up to 6x6 against a dense model after every step; non-trivial: at least two removals or permutations"),
    "C05": dict(harnesses=["h_sym"], rule="random histories of up to 40 operations on up to 4 vectors (assign, allocate, deallocate, copy, move, self-assign, destroy) against a model with an instrumented element type that records live objects; non-trivial: at least one copy or move"),
    "C06": dict(harnesses=["h_params"], rule="random JSON parameter files written by an independent serialiser (escapes, whitespace, number spellings, unrelated members); every accessor that fits a value must return it exactly; non-trivial: two or more parameters"),
    "C07": dict(harnesses=["h_params"], rule="random files with values of wrong type/range, missing keys, truncated and byte-mutated files, absent files; fatal calls run in a child whose exit status and diagnostic are observed; non-trivial: two or more wrong-type pairs / non-empty damaged text"),
    "C08": dict(harnesses=["h_sym"], rule="random streams of objects (integers, doubles incl. neighbours, long runs) converted to labels against an append-only list model; non-trivial: at least one repeated object and two labels beyond the identity"),
    "C09": dict(harnesses=["p_logtools"], rule="Hypothesis-generated run logs (timing lines with varied spacing and number spelling, progress lines, near-miss lines, odd file names; file and stdin) against an exact model; non-trivial: two or more routines one of which repeats / some but not all lines kept"),
    "C10": dict(harnesses=["h_mpo"], rule="random chains of up to 6 sites (three charge groups, real and complex, uniform or site-dependent spaces) with up to 10 terms added through every overload of AddTerm (single-site, multi-site, custom insertion operators, gaps, tail strings, operator/coefficient labels repeated); the MPO and the matrix form, compressed and generated twice, are contracted densely and compared with the sum of the terms; non-trivial: several terms, one spanning more than one site"),
    "C11": dict(harnesses=["h_mpo"], rule="every operator of the spin, tJ and Hubbard operator sets for every symmetry, compared with independent Fock-space matrices, and random model Hamiltonians (random hoppings, interactions, fields on random bonds with fermion strings) compared with a dense Fock-space construction; non-trivial: a term with a fermion string or three or more sites"),
    "C12": dict(harnesses=["h_mps"], rule="random histories of put / dump / dump-and-release / load / copy on tensor vectors with injected faults (missing, truncated and overwritten files, unwritable paths, a full device) against a model of memory and disk; whole states and operators of up to 13 sites through default and given directories; non-trivial: two or more transfers / three or more sites"),
    "C13": dict(harnesses=["h_mps"], rule="random histories of up to 14 operations on a state of up to 6 sites (canonicalise in every way, scale, replace, dump, load all or one tensor, copy, move, work with two tensors in memory, reverse); after every step the dense state is compared with the expected one and every canonical flag is checked on the tensor itself; non-trivial: two or more canonicalisations, a disturbing step, three or more sites"),
    "C14": dict(harnesses=["h_mps"], rule="random states (normalised or not, redundant bonds) truncated with random error target and bond limits, entropies of order 1..4; compared with the Schmidt spectrum of the dense state; non-trivial: three or more sites and weight really discarded / a state with entanglement"),
    "C15": dict(harnesses=["h_mps"], rule="random product states, random sets of product states of one sector, pairs of random states; compared with the dense vectors; non-trivial: three or more sites and a charged state / two or more states / two non-vanishing states"),
    "C16": dict(harnesses=["h_meas"], rule="random states of up to 8 sites and random sequences of measurements: one-site (all or chosen sites), two-site, multi-site with own or common insertion operators and tail strings, in memory and with the state on disk (pair and four-site groups in random order); every value and result file compared with the dense expectation value; non-trivial: a correlation with sites in between, three (four on disk) or more sites"),
    "C17": dict(harnesses=["h_fmpo"], rule="random histories of up to 10 operations (sum, scaling, exact product, identity, trace, normalisation, canonicalisation, copies, modification, lossless compression) on two or three random operators of up to 5 sites, neutral or charged, against dense matrices and the isometry conditions; random operators truncated with random error target and bond limits; random variational products and squares from no, random and exact initial operators; non-trivial: at least one algebraic and three operations in all / weight discarded / four or more sites and a product of rank three or more"),
    "C18": dict(harnesses=["h_fmpo"], rule="random operators of up to 5 sites, steps from 1e-7 to 1, Taylor orders up to 9, tolerances 0 to 1e-3, first without and then with compression starting from the stored powers, against the dense Taylor polynomial; non-trivial: order four or more and an operator of rank three or more"),
    "C19": dict(harnesses=["h_gs"], rule="random Hermitian Hamiltonians (MPOs generated from random term sets, real and complex) on random states of up to 6 sites, the local eigensolver of the variational algorithms at every position with 1..12 iterations and tolerances 0 to 1e-2, also from eigenvectors, nearly invariant subspaces and unnormalised starts; compared with the projected dense Hamiltonian and its Krylov spaces; non-trivial: a local space of three or more dimensions and two or more iterations"),
    "C21": dict(harnesses=["h_gs"], rule="random Hamiltonians and starts of 3..6 sites in a random sector, 1..3 sweeps with random bond limits, error targets, solver parameters and starting environments; energies compared with the dense spectrum and the energy of the resulting state, repeated sweeps with local optimality of every pair, one run with two continued ones; non-trivial: four or more sites and a sector of several states"),
    "C22": dict(harnesses=["h_gs"], rule="random states with bonds filled up or with one-dimensional parts in random places, noises, bond limits and Hamiltonians for the noised two-site and the single-site algorithm; random noise additions at every bond and direction against the dense operators of the MPO's bond; random lists of quantum-number sectors for the covering test; non-trivial: a boundary that moves / several sectors / four or more sites and a sector of several states"),
    "C23": dict(harnesses=["h_dmrg"], rule="random block operators, sites and two-site states: the super-block Hamiltonian built from renormalised operators against the projected dense Hamiltonian; random DMRG runs of several stages with changing bond limits, reused executors and existing environments on 3..6 sites against the dense spectrum and the state on disk; one to three signals raised at random tensor operations of a run in a child process; non-trivial: two or more operators in a block / four or more sites and a sector of several states / a run that really stopped early"),
    "C20": dict(harnesses=["h_tdvp"], rule="random Hermitian Hamiltonians on random states of up to 5 sites, local exponentials at every position with steps of either sign from 0 to four inverse energy scales, 1..60 iterations, tolerances 1e-1 to 1e-13, also from eigenvectors and nearly invariant subspaces; compared with dense Krylov spaces and dense exponentials; non-trivial: a local space of six or more states and three or more iterations"),
    "C24": dict(harnesses=["h_tdvp"], rule="random Hamiltonians, states, neutral and charged operators with and without strings on 3..6 sites, 0..3 steps of either sign, random bond limits and solver parameters; against a dense projector-splitting integrator, exp(-iHt) where nothing is projected away, conservation laws, dense correlations and shorter runs; non-trivial: one or more steps on four or more sites and a sector of four or more states"),
    "C25": dict(harnesses=["h_mpi"], rule="random Hermitian Hamiltonians and states spread over 1..7 simulated ranks under a seeded scheduler (five policies, buffered to fully synchronous sends); environments, products, noise additions and Lanczos solver of the distributed two-site search on 2..7 sites, and runs of the distributed two-site, noised and DMRG algorithms on 3..6 sites in 1..3 stages, compared with dense diagonalisation, serial environments and serial runs; deadlocks, lost or mismatched messages and tensors left in memory are failures; non-trivial: two or more tasks to distribute (and in runs four or more sites in a sector of four or more states)"),
    "C26": dict(harnesses=["h_mpi_tdvp"], rule="random Hamiltonians and states spread over 2..7 simulated ranks under a seeded scheduler; the distributed exponential solver at every position and distributed time evolution of neutral and charged operators on 3..6 sites, 0..3 steps, random bond limits and solver parameters, against the dense references of C20 and C24; non-trivial: a local space of six or more states and three or more iterations, or one or more steps on four or more sites and a sector of four or more states"),
    "C27": dict(harnesses=["h_report"], rule="random runs of the two-site, noised, single-site and DMRG searches and of time evolution, serial and spread over 2..7 simulated ranks, on 3..6 sites in 1..3 sweeps or steps; every line they print is parsed back: headings, order of sites, ranges of every number, the last line against the state on disk, in time evolution every line against a dense integrator; non-trivial: four or more sites and a sector of several states (or five or more lines compared with the integrator)"),
}
