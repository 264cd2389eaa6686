"""Which properties are claimed (with what assurance), and why others are not."""
CLAIMED = {}
NOT_APPLICABLE = {}

CLAIMED["P01"] = {"note":
    "Random search over small chains (1-6 sites, up to 260 states) with Hypothesis; every reported number is compared with a dense "
    "state-vector model at 1e-10. Trusts numpy and the dense model; larger systems are not sampled."}

_F = ("Random search (Hypothesis) over small open chains compared with a dense state-vector model; trusts numpy and the dense model; "
      "larger systems are not sampled. ")
CLAIMED["P02"] = {"note": _F + "Covers update/restore in both forms, single and repeated, all state kinds incl. rank deficient, and both C-like and identity environments."}
CLAIMED["P03"] = {"note": _F + "Schmidt data, entropies, truncation and automatic truncation against dense SVDs."}
CLAIMED["P04"] = {"note": _F + "Construction, product states, local edits, noise, enlargement, grow/shrink and save/load histories."}
CLAIMED["P05"] = {"note": _F + "Energies and environments for 2-/3-site Hamiltonians as lists or functions, both gauges, and along histories of edits and steps."}
CLAIMED["P06"] = {"note": _F + "Direction compared with the dense tangent-space projection of (H-E)|psi>; states with tiny Schmidt weights get a proportional tolerance."}
CLAIMED["P07"] = {"note": _F + "Local-error scaling of Euler and RK4 against an independently integrated dense projected flow, for complex step directions, plus energy rates and step histories. Restricted to states whose Schmidt values are not tiny."}
CLAIMED["P11"] = {"note": "Random search over small matrices (1-24 dimensional, Hermitian, defective, singular, invariant subspaces, integer, stiff), vectors, complex times, "
    "subspace sizes, tolerances and norm estimates; result compared with scipy's dense expm within the requested tolerance times the growth bound. Trusts scipy.linalg.expm."}
CLAIMED["P08"] = {"note": _F + "One- and two-site split steps compared with an independent dense projector-splitting sweep (same sub-steps, computed with expm on the full space), plus energy conservation/decrease and local order. One recorded finding: the class method fails outright (the check works around it to examine the rest)."}
CLAIMED["P09"] = {"note": _F + "The linear coefficient of the expanded state in the step size is extracted exactly (the state is a polynomial in it) and compared with the projected direction plus the leading two-site components; limits and norms too."}
CLAIMED["P10"] = {"note": _F + "DMRG sweeps compared with an independent dense sweep; line searches and conjugate-gradient histories checked for reported energies, restoration, monotonicity and the variational bound; convergence with complete bases."}
CLAIMED["P12"] = {"note": "Local maps, transfer maps and map/eigenvalue helpers compared with dense contractions written from their documented formulas over random shapes, dtypes, memory layouts and diagonal/identity stand-ins."}
CLAIMED["P13"] = {"note": "Random expression programs over dense, diagonal and identity matrices evaluated twice (with the stand-ins and with plain numpy); factorisations, inverses, square roots, null spaces and random-matrix helpers checked by their defining equations incl. singular and badly scaled input."}

_U = ("Random search (Hypothesis) over small infinite states (bond dimension up to about 6, cells of 1-3 sites) compared with dense transfer-matrix "
      "linear algebra; complex dtype only; states with nearly degenerate transfer matrices or tiny Schmidt weights are left out or get proportional tolerances. ")
CLAIMED["P14"] = {"note": _U + "Iterative and brute-force inverses, pseudo and plain, both sides, momenta, mixed cells, start vectors and tolerances against a dense solve; warnings must be truthful."}
CLAIMED["P15"] = {"note": _U + "Refresh, canonical forms by every algorithm, gauge matrices, construction, and histories of edits: normalisation, fixed points, form, and unchanged physical content."}
CLAIMED["P16"] = {"note": _U + "All local values, correlators, densities, spectra, fidelities, string rates and half-chain charges at every cell position."}
CLAIMED["P17"] = {"note": _U + "Blocking, enlarging, truncating, site-dimension changes, alignment, one-site operators, and histories of saving and loading; exports must be snapshots."}
CLAIMED["P18"] = {"note": _U + "Energies, both energy environments, the projected direction (gradient of a holomorphic dense energy functional), its norms and energy rate; arrays, functions, products and three-site forms agree."}
CLAIMED["P19"] = {"note": _U + "Euler steps exactly, Runge-Kutta steps by local-error scaling against an independently integrated dense flow, expansion by exact first-order rates, and step histories. Dynamic expansion inside Runge-Kutta steps is declared unsupported by the code (assertion) and not sampled."}
CLAIMED["P20"] = {"note": _U + "Overlaps and gauge fixing of one-site tangent vectors at any momentum against a dense connected sum; recorded line-search data, conjugate-gradient steps and whole searches, with a rigorous lower bound from open clusters. Tangent vectors over several sites are not sampled."}
CLAIMED["P21"] = {"note": _U + "Matrix elements, Hermiticity and spectra of the effective operator against dense block transfer matrices for one-site cells, 2-/3-site Hamiltonians as arrays, products or functions, identical, gauge-equivalent and symmetry-related second states, iterative solvers, and values around a local disturbance."}
CLAIMED["P22"] = {"note": _U + "Windows of 1-5 sites (inner bonds of any dimension) between equal or different bulks (also different bond dimensions and cells); values inside, across and outside, canonical forms from any centre, overlaps with states and momentum tangent vectors, and histories of growth, edits, saving and loading."}
CLAIMED["P23"] = {"note": _U + "Windows of 1-4 sites between equal or different bulks, constructed from uniform states or MPS, 2-/3-site Hamiltonians (lists, functions, impurities, quenches). Reference: the exact effective Hamiltonian on (left bond) x window x (right bond); energies, directions and norms exactly, steps by local-error scaling, expansion by exact first-order rates, and histories of steps, growth, quenches, saving and loading."}
CLAIMED["P24"] = {"note": _F + "The noise of each step is solved for from the change of the state: everything else must be the projected drift, exactly; the drift and noise directions average to the Lindblad generator when the bond dimensions are complete; options and expansion compared with the same generator in the deterministic class; mean, variance, circularity and independence of the noise tested statistically (7 standard deviations, seeded)."}
CLAIMED["P25"] = {"note": "Random search over small finite and uniform systems; every report of a driver is compared with stepping by hand from the previous report (state, energy, direction norm, bond dimension), stopping rules are checked on the whole record, ODE evolution is compared with the exact or independently projected dense flow. Relaxation and gradient drivers exist for uniform states only (they compare scalar bond dimensions and energies per site); opt_conj_grad2 is an unfinished experiment and not covered."}
CLAIMED["P26"] = {"note": "Both forms (committed C files, and fresh Cython translations) are compiled from the current tree and run in separate processes, so a crash is a failing case. Each function is compared with an einsum of its definition over shapes, layouts, environment types and 1-8 threads, with NaN fences around arrays to notice reads or writes outside them; then whole cases of the other properties are run with the extensions in place. Complex dtype only (the extensions accept no other). Compiled with gcc -O1 rather than by the setup scripts."}
