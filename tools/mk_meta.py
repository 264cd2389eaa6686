#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run by hand after editing; the results are committed)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# id, title, statement, over, quantifier text, why tests can't, files, mechanisms[(name, where)]
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a))

prop("P01", "Finite-chain observables equal those of the represented state vector",
     "For every finite open-chain matrix product state, with any site dimensions, any bond dimensions and either canonical form, the one-, two- and three-site expectation values, two-point and connected correlation functions, string and matrix-product-operator expectation values, one- and two-site reduced density matrices and overlaps it reports equal the values computed from the full state vector. The answer does not depend on whether an operator is given as an array or as a function, nor on the gauge in which the state is stored.",
     ["inputs", "configurations"],
     "all chain lengths, inhomogeneous site dimensions, bond dimensions, tensors (including rank-deficient and badly conditioned ones), operators (non-Hermitian too), sites and distances",
     "The suite only measures energies of one Ising chain with q=2; inhomogeneous sites, non-Hermitian operators, densities, strings, MPOs and overlaps are never evaluated.",
     ["evoMPS/mps_gen.py", "evoMPS/core_common.py"],
     [("environment contraction of operators", "mps_gen.EvoMPS_MPS_Generic.expect_1s/2s/3s, expect_1s_1s, correlation_1s_1s, expect_string_1s, expect_MPO"),
      ("reduced density matrices", "mps_gen.density_1s, density_2s"),
      ("overlap", "mps_gen.inner")])

prop("P02", "Restoring a finite canonical form keeps the state and yields that form",
     "Bringing a finite-chain state into left or right canonical form, by either the QR or the non-QR route, with or without normalisation and diagonalisation, leaves the represented state vector unchanged up to the requested normalisation and a global phase. Afterwards the stored tensors satisfy the canonical orthonormality condition, the stored environments are the true contractions of the stored tensors, bond dimensions agree with tensor shapes, redundant bond dimension of rank-deficient states is removed consistently, and repeating the operation changes nothing.",
     ["inputs", "histories"],
     "all states (full rank, rank deficient, badly scaled), both forms, every option combination, and sequences of restorations, renormalisations and noise",
     "The tests only ever restore the right canonical form of well-conditioned random Ising chains and never compare the state before and after.",
     ["evoMPS/mps_gen.py", "evoMPS/tdvp_common.py", "evoMPS/matmul.py"],
     [("right/left canonical sweeps", "mps_gen.restore_RCF, restore_LCF"),
      ("single-site gauge steps", "tdvp_common.restore_RCF_r(_seq), restore_RCF_l(_seq), restore_LCF_l(_seq), restore_LCF_r(_seq)"),
      ("environment updates", "mps_gen.calc_l, calc_r, simple_renorm, update")])

prop("P03", "Finite Schmidt spectra, entropies and truncation agree with exact SVD",
     "At every cut of a finite chain in canonical form, the reported Schmidt weights and entropy equal those of the state vector's singular value decomposition. Truncating to given bond dimensions or to a tolerance keeps the dominant Schmidt weights, never exceeds the requested dimensions, changes the state by no more than the discarded weight allows (not at all if only zero weights are dropped), and leaves a normalised state in a valid canonical form.",
     ["inputs", "histories"],
     "all states with prescribed or random Schmidt spectra, all target dimensions and tolerances, both canonical forms, list or array targets, truncation with or without restoring the form afterwards",
     "One test calls auto-truncation on a single Ising state and checks the energy; spectra and errors are not compared with an SVD.",
     ["evoMPS/mps_gen.py"],
     [("Schmidt weights from diagonal environments", "mps_gen.schmidt_sq, entropy"),
      ("truncation", "mps_gen.auto_truncate, truncate, _update_after_truncate, update")])

prop("P04", "Building, modifying and saving finite-chain states is faithful",
     "A finite-chain state built from product vectors, from given tensors, or loaded from a file saved earlier represents exactly the prescribed state vector (up to normalisation where normalisation was requested). Applying a one-site operator or a matrix product operator to a stored state gives exactly that operator acting on the state vector, and adding zero noise or refreshing derived data changes nothing.",
     ["inputs", "histories"],
     "all lists of local vectors, tensor lists, operators (non-unitary too), MPOs and positions, and all sequences of these operations with save/load in between",
     "No test builds product states, applies operators, or saves and loads a finite-chain state.",
     ["evoMPS/mps_gen.py", "evoMPS/tdvp_common.py"],
     [("constructors", "mps_gen.set_state_product, set_state_from_tensors, mps_from_tensors_gen, initialize_state"),
      ("operator application", "mps_gen.apply_op_1s, apply_op_MPO; tdvp_common.apply_MPO_local"),
      ("persistence", "mps_gen.save_state, load_state")])

prop("P05", "Finite-chain energies equal the dense expectation of the Hamiltonian",
     "For every finite chain and every local Hamiltonian (two- or three-site terms, site-dependent, possibly with absent terms or given as functions), the reported energy of each term and the total energy after a refresh equal those computed from the full state vector, in either canonical form. Environments that accumulate the energy from either end satisfy their defining sums.",
     ["inputs", "histories", "configurations"],
     "all states, site dimensions, Hermitian interaction terms, canonical forms, and sequences of steps, refreshes and gauge changes",
     "Only the homogeneous Ising Hamiltonian with 2- and 3-site encodings on right-canonical states is tested.",
     ["evoMPS/tdvp_gen.py", "evoMPS/tdvp_common.py"],
     [("interaction tensors", "tdvp_gen.calc_C; tdvp_common.calc_C_mat_op_AA, calc_C_3s_mat_op_AAA"),
      ("energy environments", "tdvp_gen.calc_K, calc_K_l; tdvp_common.calc_K, calc_K_3s, calc_K_l, calc_K_3s_l")])

prop("P06", "The finite TDVP direction is the exact tangent-space projection",
     "For every finite-chain state and Hermitian Hamiltonian the computed evolution direction, read as a tangent vector, is the orthogonal projection of the energy-subtracted Hamiltonian acting on the state onto the variational manifold's tangent space, in either canonical form and also when the Hamiltonian is supplied as a matrix product operator. The reported total and per-site norms equal the norms of that projection, and each component satisfies the gauge-fixing condition of its form.",
     ["inputs", "configurations"],
     "all states, site and bond dimensions, two- and three-site Hamiltonians with absent terms, both canonical forms, local or MPO Hamiltonians",
     "No test looks at the tangent vector; only that long imaginary-time evolution of one model lowers the energy.",
     ["evoMPS/tdvp_gen.py", "evoMPS/tdvp_common.py", "evoMPS/nullspace.py"],
     [("gauge-fixed parametrisation", "tdvp_common.calc_Vsh, calc_Vsh_l, calc_l_r_roots; nullspace"),
      ("projection", "tdvp_common.calc_x, calc_x_3s, calc_x_l, calc_x_l_3s; tdvp_gen.calc_B, calc_B_n, calc_B_MPO")])

prop("P07", "Finite explicit integrators follow the projected Schroedinger flow to order",
     "A single explicit Euler step of a finite chain agrees with the exact projected flow up to second-order error in the step size, and a Runge-Kutta step up to fifth-order error; when the bond dimension is large enough to represent any state this flow is the exact Schroedinger evolution. Real time steps preserve norm and energy to that order, imaginary time steps lower the energy, and a zero step changes nothing.",
     ["inputs", "histories"],
     "all states, Hamiltonians (two- and three-site), step sizes and complex time directions, both canonical forms",
     "Existing tests run long imaginary-time relaxations whose end point does not depend on the order or accuracy of the integrator.",
     ["evoMPS/tdvp_gen.py"],
     [("Euler step", "tdvp_gen.take_step"), ("Runge-Kutta step", "tdvp_gen.take_step_RK4")])

prop("P08", "Split-step evolution of finite chains matches exact evolution to order",
     "The split-step integrators of finite chains (one-site and two-site, with local-term or matrix-product-operator Hamiltonians) converge to the exact projected evolution with at least second-order accuracy per step, and reproduce the exact Schroedinger evolution up to splitting error when bond dimensions suffice. In real time they conserve the norm always and, for the one-site scheme, the energy to the accuracy of the scheme; two-site steps respect the bond limits given and report consistent central tensors.",
     ["inputs", "histories", "configurations"],
     "all states, Hermitian two- and three-site Hamiltonians, complex step sizes, numbers of steps and truncation limits",
     "The only split-step test fails on an unrelated return-value mismatch; the stand-alone split-step module has no test.",
     ["evoMPS/tdvp_gen.py", "evoMPS/split_step.py", "evoMPS/sexpmv.py"],
     [("split-step sweep", "tdvp_gen.take_step_split; split_step.evolve_split"),
      ("effective one-site, two-site and centre-matrix Hamiltonians", "tdvp_gen.Vari_Opt_*; split_step.Vari_Opt_*")])

prop("P09", "Bond expansion adds exactly the dominant out-of-manifold directions",
     "A dynamically expanding step on a finite chain increases bond dimensions only within the given limits, keeps tensor shapes consistent, and changes the state by the ordinary step plus second-neighbour corrections that match the leading part of the exact two-site projection of the Hamiltonian outside the manifold. The reported two-site projection norms equal those computed from the state vector, so expansion never makes the step less accurate than the plain one.",
     ["inputs", "configurations"],
     "all states below full bond dimension, two- and three-site Hamiltonians, both canonical forms, limits and tolerances",
     "One test runs expansion on Ising and checks final energy; neither the limits nor the added directions are checked.",
     ["evoMPS/tdvp_gen.py", "evoMPS/tdvp_common.py"],
     [("two-site projection", "tdvp_gen.calc_BB_Y_2s, calc_BB_2s; tdvp_common.calc_BB_Y_2s, calc_BB_Y_2s_ham_3s, calc_BB_2s"),
      ("expansion in the step", "tdvp_gen.take_step(dynexp=True)")])

prop("P10", "Finite variational searches never raise the energy and reach the ground state",
     "Each single-site variational sweep, each line search along the gradient and each conjugate-gradient or imaginary-time update accepted by the finite ground-state searches does not raise the energy, whichever Hamiltonian form is used. With sufficient bond dimension they converge to the exact ground energy of the dense Hamiltonian, never below it, and leave the state normalised and canonical.",
     ["inputs", "histories"],
     "all Hermitian two- and three-site Hamiltonians, site dimensions, initial states and sweep sequences",
     "Only the critical Ising model from random starts is minimised, with a loose end-energy check.",
     ["evoMPS/tdvp_gen.py", "evoMPS/split_step.py", "evoMPS/dynamics.py"],
     [("single-site DMRG", "tdvp_gen.vari_opt_ss_sweep, take_step_split; split_step.evolve_split(DMRG=True)"),
      ("line search and conjugate gradient", "tdvp_gen.find_min_h_brent, calc_B_CG; dynamics.find_ground")])

prop("P11", "The Krylov exponential action equals the dense matrix exponential",
     "For every matrix, vector and complex time the Krylov exponential routine returns the exponential of the scaled matrix applied to the vector within the requested tolerance, whatever the subspace size, including small dimensions, invariant subspaces and zero time. It leaves its inputs unmodified and its error estimates and conversion bookkeeping are consistent with that result.",
     ["inputs"],
     "all square matrices and linear operators (Hermitian or not, defective, with invariant subspaces), start vectors, times, subspace dimensions and tolerances",
     "No test calls the routine directly; its only user test crashes before using the result.",
     ["evoMPS/sexpmv.py"],
     [("adaptive Krylov stepping", "sexpmv.gexpmv")])

prop("P12", "Transfer maps and local contractions equal their defining tensor sums",
     "Every transfer map of the core library, left or right, without operator or with one-, two- or three-site operators, matrix-product-operator or tensor-product operators, on environments stored dense, diagonal or as identity, equals its defining index sum for all tensor shapes including unequal bra and ket bond dimensions. Left and right maps are adjoint to each other, results do not alias or modify inputs, and out-of-place and in-place variants agree.",
     ["inputs"],
     "all tensors, bond and site dimensions, environments of every storage kind, operators as arrays or functions",
     "Unit tests compare a few maps at one fixed shape; special environment types, MPO maps, products of several sites and unequal bra/ket dimensions are not covered.",
     ["evoMPS/core_common.py", "evoMPS/tdvp_common.py"],
     [("transfer maps", "core_common.eps_l_*, eps_r_*; tdvp_common.eps_*"),
      ("products and interaction tensors", "core_common.calc_AA, calc_AAA*; tdvp_common.calc_C_*, calc_K_*")])

prop("P13", "Structured matrices and factorisations behave like dense linear algebra",
     "Identity and diagonal matrix objects give, under every supported operation and mixture with ordinary arrays, the same result as their dense equivalents. Hermitian square roots, inverses, pseudo-inverses and factorisations, triangular inverses, null spaces, ranks, conjugate transposes and inner products satisfy their defining equations for every valid input including singular and badly scaled ones, without modifying inputs unless asked.",
     ["inputs"],
     "all sizes, dtypes, storage orders, singular and near-singular inputs within stated tolerances",
     "There are no tests of the matrix helper layer.",
     ["evoMPS/matmul.py", "evoMPS/nullspace.py", "evoMPS/tdvp_common.py"],
     [("special matrix types", "matmul.eyemat, simple_diag_matrix, mmul, adot, H, mmul_diag"),
      ("factorisations", "matmul.sqrtmh, invmh, invtr; tdvp_common.herm_sqrt_inv, herm_fac_with_inv; nullspace.*")])

prop("P14", "Inverting one minus the transfer matrix solves the geometric series",
     "For every pair of equal-length unit cells and momentum the iterative solver returns the (pseudo-)inverse of identity minus the phase-weighted transfer matrix applied to the given environment, from left or right, matching a dense solution. With the pseudo-inverse option the result has no component along the dominant eigenvectors; the dense helpers agree with the iterative one.",
     ["inputs"],
     "all normalised unit cells of one to three sites, equal or different bra and ket states, momenta (zero, pi, generic), sides, initial guesses",
     "Three unit tests cover one bond dimension and two momenta on random tensors.",
     ["evoMPS/mps_uniform_pinv.py"],
     [("linear operator and solver", "mps_uniform_pinv.PinvOp, pinv_1mE, pinv_1mE_brute, pinv_1mE_brute_LOP")])

prop("P15", "Uniform states are normalised, canonical, and keep their physical content",
     "After a refresh every uniform (infinite, block-translation-invariant) state has unit transfer-matrix spectral radius, its stored environments are positive fixed points normalised against each other for every site of the unit cell, and the chosen canonical form (symmetric, right or left) holds. The refresh, the choice of form and the method used to find fixed points change the physical state not at all: fidelity per site with the original stays one and all local expectation values are unchanged.",
     ["inputs", "configurations", "histories"],
     "all injective tensors, bond dimensions, unit-cell lengths, dtypes, canonical forms, fixed-point algorithms and repeated refreshes",
     "No test instantiates a uniform state other than for the pseudo-inverse.",
     ["evoMPS/mps_uniform.py", "evoMPS/tdvp_common.py"],
     [("fixed points", "mps_uniform.calc_lr, _calc_lr_ARPACK, _calc_lr_brute, _calc_lr"),
      ("canonical forms", "mps_uniform.restore_SCF, restore_RCF, restore_LCF, update")])

prop("P16", "Uniform-state observables equal the infinite-chain values",
     "For every uniform state the one-, two- and three-site expectation values, two-point functions and connected correlators at any distance, string values, reduced densities, Schmidt weights, entropies, correlation lengths, transfer-matrix gaps, string rates and fidelities per site equal the values computed independently from the dense transfer matrix of the given tensors. This holds at every position in the unit cell and wraps correctly across cell boundaries.",
     ["inputs", "configurations"],
     "all injective tensors, unit-cell lengths and positions, operators including non-Hermitian ones, distances, canonical forms",
     "No test evaluates any observable of a uniform state.",
     ["evoMPS/mps_uniform.py"],
     [("local and correlation functions", "mps_uniform.expect_*, correlation_1s_1s, density_1s, basis_occupancy"),
      ("spectral quantities", "mps_uniform.calc_E_gap, correlation_length, fidelity_per_site, schmidt_sq, entropy, expect_string_*")])

prop("P17", "Reshaping, aligning and saving uniform states is physically faithful",
     "Blocking a unit cell into one site, enlarging the bond dimension or site dimension without noise, truncating only zero Schmidt weights, aligning phase or gauge with an equivalent state, and saving then loading a uniform state all leave its physical content unchanged. Gauge alignment of equivalent states makes their tensors equal, applying a one-site unitary acts as that unitary, and truncation keeps the dominant weights and respects the requested dimension.",
     ["inputs", "histories"],
     "all injective uniform states, unit-cell lengths, target dimensions, random gauge transformations and phases, and sequences of these operations",
     "None of these operations has a test.",
     ["evoMPS/mps_uniform.py", "evoMPS/tdvp_uniform.py"],
     [("transformations", "mps_uniform.convert_to_TI_blocked, expand_D, set_q, truncate, auto_truncate, apply_op_1s, gauge_align, phase_align"),
      ("persistence", "tdvp_uniform.save_state, load_state, export_state, import_state, from_file, from_mps, from_tensors")])

prop("P18", "Uniform energy density and TDVP direction are the exact projections",
     "For every uniform state and two- or three-site Hermitian Hamiltonian (array, function or tensor-product form) the reported energy density equals the infinite-chain value at each cell position, and the energy environments solve their geometric series from either side. The evolution direction is the energy gradient projected on the gauge-fixed tangent space, its reported norm is the norm per cell of that projection, and the energy changes along it at the rate this implies.",
     ["inputs", "configurations"],
     "all injective uniform states, unit cells, Hamiltonians in every representation, canonical forms",
     "Uniform TDVP has no tests.",
     ["evoMPS/tdvp_uniform.py", "evoMPS/tdvp_common.py"],
     [("energy environments", "tdvp_uniform.calc_C, calc_K, calc_K_l, calc_PPinv"),
      ("evolution direction", "tdvp_uniform.calc_B, calc_B_2s, get_B_from_x")])

prop("P19", "Uniform time steps follow the projected flow to their stated order",
     "For uniform states an explicit Euler step is accurate to first order and a Runge-Kutta step to fourth order in the step size, for real and imaginary time and with all unit-cell lengths. Real time evolution conserves energy density to that order, imaginary time lowers it, zero steps change nothing, and expanding steps obey the dimension limits while agreeing with the plain step to first order.",
     ["inputs", "histories"],
     "all injective states, Hamiltonians, complex step sizes, unit cells, and expansion limits",
     "Uniform integrators have no tests.",
     ["evoMPS/tdvp_uniform.py"],
     [("steps", "tdvp_uniform.take_step, take_step_RK4")])

prop("P20", "Uniform conjugate-gradient search lowers the energy and overlaps are exact",
     "Tangent-vector overlaps of uniform states, gauge fixed or not and at any momentum, equal the dense per-site inner products, and gauge fixing a tangent vector changes neither overlaps nor the physical vector. Line searches record the true energies and slopes, conjugate-gradient steps do not raise the energy density beyond solver tolerance, and ground-state searches end at a stationary state whose energy never lies below the true ground-state density.",
     ["inputs", "histories"],
     "all injective states and Hermitian two- and three-site Hamiltonians, momenta, unit cells, and search histories",
     "Neither the overlaps nor the searches of uniform states are tested.",
     ["evoMPS/tdvp_uniform.py", "evoMPS/dynamics.py"],
     [("overlaps and gauge fixing", "tdvp_uniform._B_overlap, _B_to_B_GF"),
      ("CG and line search", "tdvp_uniform.calc_B_CG, EvoMPS_line_search; dynamics.opt_conj_grad, find_ground")])

prop("P21", "The excitation Hamiltonian equals the momentum-space tangent projection",
     "For every uniform ground state approximation, momentum and two- or three-site Hamiltonian the effective excitation operator is Hermitian and equals the energy-subtracted Hamiltonian projected on momentum tangent vectors, as computed from an independent dense construction. Iterative and dense eigensolvers, array and tensor-product Hamiltonians, and the two-state (domain wall) version with identical or gauge-equivalent states agree with each other. Values and (connected) correlations of a localised tangent disturbance equal those of the infinite state it describes.",
     ["inputs", "configurations"],
     "all injective states, momenta, Hermitian interactions in either representation, topologically trivial and nontrivial sectors",
     "The excitation code has no tests.",
     ["evoMPS/mps_uniform_excite.py", "evoMPS/tdvp_uniform.py"],
     [("effective Hamiltonian", "mps_uniform_excite.Excite_H_Op, Excite_H_Op_tp"),
      ("drivers", "tdvp_uniform.excite_top_triv(_brute), excite_top_nontriv(_brute)")])

prop("P22", "Sandwich states describe one infinite state, whatever their window or gauge",
     "For every finite window joined to uniform left and right bulks, norms, expectation values at any position inside or outside the window, and overlaps equal those of the infinite state defined by the tensors. Restoring the canonical form, growing the window into the bulk, refreshing, and saving then loading change none of them, and an unmodified window reproduces the bulk values everywhere.",
     ["inputs", "histories"],
     "all bulk states, unit cells, windows (including different left and right bulks), positions and operation sequences",
     "The sandwich classes have no tests.",
     ["evoMPS/mps_sandwich.py", "evoMPS/mps_gen.py"],
     [("environment joining", "mps_sandwich.calc_l, calc_r, get_l, get_r, get_A"),
      ("canonical form, growth, overlap, persistence", "mps_sandwich.restore_CF, grow_left, grow_right, overlap, save_state, load_state, from_tensors")])

prop("P23", "Sandwich evolution is the projected flow of the window in the infinite chain",
     "For every sandwich state and local Hamiltonian the reported local energies and excess energy equal those of the infinite state, and the evolution direction of the window is the exact projection of the Hamiltonian's action onto variations of the window tensors. An undisturbed stationary bulk stays stationary; Euler and Runge-Kutta steps converge at first and fourth order, conserve energy in real time and lower it in imaginary time; growing the window does not change energies.",
     ["inputs", "histories"],
     "all bulk states, windows, two- and three-site Hamiltonians with impurities, step sizes and growth sequences",
     "The sandwich TDVP code has no tests.",
     ["evoMPS/tdvp_sandwich.py", "evoMPS/tdvp_common.py"],
     [("energy environments", "tdvp_sandwich.calc_C, calc_K"),
      ("evolution", "tdvp_sandwich.calc_B, calc_B_n, calc_B_centre, take_step, take_step_RK4")])

prop("P24", "Dissipative steps sample the projected stochastic Lindblad unravelling",
     "For every finite chain, Hamiltonian and set of jump operators, a dissipative step with given noise equals the projection of the corresponding linear stochastic Schroedinger update (Hamiltonian and decay drift plus jump terms weighted with noise and expectation value) on the tangent space. Averaged over noise the step reproduces the Lindblad generator to first order, without jump operators it reduces to ordinary evolution, and states stay normalised after a refresh.",
     ["inputs", "histories"],
     "all states of sufficient bond dimension, Hamiltonians, jump operators on any site, noise values and step sizes",
     "The dissipative class has no tests.",
     ["evoMPS/tdvp_gen_diss.py"],
     [("dissipative step", "tdvp_gen_diss.take_step_dissipative, calc_B_1s_diss")])

prop("P25", "Evolution and search drivers do exactly the steps they promise",
     "The driver loops for time evolution (finite and uniform states), imaginary-time relaxation, gradient descent and conjugate gradients (uniform states) perform the number and kind of steps requested, report progress through callbacks with consistent step counts, times and energies, stop when the tolerance is met or the iteration limit is reached, expand only as far as asked, and leave the state refreshed and equal to manual stepping. Evolution of finite states through a general ODE solver matches the exact projected flow within its tolerance, at every report and at the end.",
     ["inputs", "histories"],
     "all systems the drivers accept, times, step sizes (including remainders), integrators, tolerances, limits and callbacks",
     "The driver module has no tests.",
     ["evoMPS/dynamics.py"],
     [("drivers", "dynamics.evolve, find_ground, opt_im_time, opt_conj_grad, opt_grad_descent, evolve_scipy_ode")])

prop("P26", "Compiled kernels compute the same maps as the pure-Python ones",
     "Whenever the optional compiled extensions are built (from the committed C sources, or from the Cython sources, core_common.py with core_common.pxd and matmul.py), every transfer map, matrix helper, closeness test and interaction tensor they provide gives the values of its defining contraction, as the pure-Python version does, for all complex inputs, in every environment storage type and memory layout and with any number of threads; they write only into the array they return and leave arguments alone; and states and evolution computed with the extensions in place satisfy the other properties unchanged.",
     ["inputs", "configurations"],
     "all complex tensors, bond and site dimensions, environment types, memory layouts, thread counts; finite entries for the closeness test",
     "The suite only runs the pure-Python versions; the compiled extensions are built but never executed.",
     ["evoMPS/eps_maps_c.pyx", "evoMPS/tdvp_calc_C.pyx", "evoMPS/allclose.pyx", "evoMPS/core_common.pxd", "evoMPS/eps_maps_c.c", "evoMPS/tdvp_calc_C.c", "evoMPS/allclose.c", "evoMPS/core_common.c", "evoMPS/matmul.c"],
     [("compiled extensions", "eps_maps_c.pyx, tdvp_calc_C.pyx, allclose.pyx, core_common.pxd and the generated C files"), ("their use", "tdvp_common.py (import of eps_maps_c), mps_gen.py, mps_uniform.py")])

# ---------------------------------------------------------------- manifest
TECH = "property-based testing (Hypothesis): generated inputs and histories against a dense reference model, shrunk to a replay file"
CLAIMED = {}
NOT_APPLICABLE = {}
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
try:
    from manifest_notes import CLAIMED, NOT_APPLICABLE
except ImportError:
    pass

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks = []
    na = []
    for p in P:
        i = p["id"]
        if i in CLAIMED:
            note = CLAIMED[i]
            checks.append({"property": i, "quick_cmd": "./check %s quick" % i,
                           "thorough_cmd": "./check %s thorough" % i,
                           "evidence_file": "evidence/%s.json" % i,
                           "technique": note.get("technique", TECH), "level": "exploration",
                           "level_note": note["note"]})
        else:
            na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "All checks run the code in /repo directly (pure Python, imported from the working tree); see DESIGN.md."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
main()
