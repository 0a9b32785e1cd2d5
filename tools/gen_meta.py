"""writes properties.jsonl and MANIFEST.json: python3 tools/gen_meta.py (in /verif)"""
import importlib
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
GEO, SYM, BASE, FER, SPI, NLC, GAS, GRN = ["exact_diag/" + x for x in ("ed_geometry.py", "ed_symmetry.py", "ed_base.py", "ed_fermions.py", "ed_spins.py", "ed_nlce.py", "fermi_gas.py", "greens_fns.py")]
CL = ["cluster/generate_clusters.py", "cluster/generate_clusters_no_subs.py", "cluster/find_subclusters.py", "cluster/aggregate_subclusters.py", "cluster/diag_cluster.py", "cluster/aggregate_results.py"]
P = []


def p(id, title, statement, over, text, why, files, mech, technique=None, note=""):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}, "_t": technique, "_n": note})


p("G01", "A lattice cluster holds every lattice site exactly once",
  "A cluster built from lattice, basis and periodicity vectors (square, tilted square, triangular, hexagonal or general) contains exactly one representative of every lattice site modulo the periodicity vectors, whatever combination of open and periodic boundaries is chosen. "
  "The representatives lie inside the cell spanned by the periodicity vectors, their number equals the number of basis sites times the ratio of the cell volumes, and site coordinates, lattice labels and site count agree with each other.",
  ["inputs", "configurations"], "all lattice, basis and integer periodicity vectors, and the four boundary conditions",
  "The tests build a handful of clusters; missing or doubled sites appear for particular oblique or negative periodicity vectors (rounding at the cell boundary).",
  [GEO], [("enumeration of the sites of the unit cell", GEO + ":get_unique_sites"), ("lattice constructors", GEO + ":create_lattice_geom, create*Geometry")])
p("G02", "Site displacements are shortest images; neighbours are sites at distance 1",
  "For every cluster the displacement between two sites is their coordinate difference modulo the periodic directions, of the smallest possible length, and the distance is symmetric. "
  "Two sites are adjacent exactly if their shortest distance is one lattice constant; the adjacency matrix is symmetric and has no self bonds unless a site is its own periodic image.",
  ["inputs", "configurations"], "all clusters with integer periodicity vectors, open point sets and regular polygons, every pair of sites",
  "The tests look at few orthogonal clusters; wrong images occur for oblique cells, for particular site pairs.",
  [GEO], [("reduced distances", GEO + ":get_reduced_distance, get_shortest_equivalent, get_site_distance"), ("adjacency", GEO + ":get_neighbors_by_distance")])
p("G03", "Twisted boundaries: a closed walk picks up the phase of its winding numbers",
  "On a cluster with twist angles, the product of the bond phases along any closed walk equals the phase given by the number of times the walk winds around each periodic direction, and is 1 for contractible walks. "
  "The matrix of phase factors has entries of modulus 1 and is hermitian, and zero twist gives the factor 1 everywhere.",
  ["inputs", "configurations", "histories"], "all clusters, twist angles, and closed walks of any length within the winding bound",
  "The tests compare two phase matrices; a gauge error shows only for walks around particular cycles with generic angles in both directions.",
  [GEO], [("phase matrix", GEO + ":get_phase_mat"), ("separation in periodicity vectors", GEO + ":get_reduced_distance")])
p("G04", "Unit-cell reduction, reciprocal vectors, and rejection of bad lattices",
  "Reducing a vector to the unit cell returns the equivalent vector in the half-open (positive or centered) cell, with the integer numbers of cell vectors that were removed, and is idempotent; reciprocal vectors are dual to the given vectors (each has product 1 with its own vector, 0 with the other). "
  "Periodicity vectors that are dependent or not integer combinations of the lattice vectors are rejected, all others are accepted; a cluster whose supplied adjacency or phases contradict its lattice is rejected.",
  ["inputs"], "all pairs of vectors (one may be zero) and all points",
  "The tests use a few points; boundary points, negative vectors and one-dimensional cells are not covered.",
  [GEO], [("reduction", GEO + ":reduce_vectors, reduce_to_unit_cell"), ("reciprocal vectors", GEO + ":get_reciprocal_vects"), ("validation", GEO + ":validate_latt_vects, validate_periodicity_vects")])
p("G05", "Relabelling and sorting sites changes labels only; equality sees physics only",
  "Permuting the sites of a cluster permutes coordinates, distances, phases and adjacency consistently, undoing the permutation restores the cluster, and anything that is not a permutation is rejected. "
  "Every sorting mode yields a permutation that orders the sites by its criterion whatever the initial labelling, and two clusters compare equal exactly if sites, adjacency, phases and lattice agree.",
  ["inputs", "histories"], "all permutations and sequences of permutations, all sorting modes, all pairs of clusters",
  "The tests apply one permutation to one cluster.",
  [GEO], [("permutation", GEO + ":permute_sites"), ("sorting", GEO + ":get_sorting_permutation"), ("equality", GEO + ":__eq__, isequal_adjacency")])
p("O01", "Fermion operators satisfy the canonical algebra in the occupation basis",
  "For any number of sites and species, the creation, annihilation, number and Majorana operators built by the library act on every occupation number state as fermion operators: they obey the canonical anticommutation relations between all sites and species, and products of two agree with the two-site operators. "
  "Sums over sites, with or without a wavevector, are the sums (with phase exp(iq.r)) of the one-site operators, and the reported basis states label the basis in which the matrices are given.",
  ["inputs", "configurations"], "all numbers of sites and species, all ordered pairs of modes, all basis states",
  "Tests check two- or four-mode cases; string signs depend on the order and distance of the modes.",
  [BASE, FER], [("one- and two-site operators", BASE + ":get_single_site_op, get_two_site_op, get_sum_op, get_sum_op_q"), ("basis", FER + ":get_state_vects"), ("mode index", BASE + ":spinful2spinlessIndex, spinless2spinfullIndex")])
p("O02", "Spin operators satisfy the angular momentum algebra; special states are right",
  "For every spin length the one-site spin operators are hermitian, obey the angular momentum commutation relations with the Casimir s(s+1), S+ raises and S- lowers Sz, and operators on one site, two sites, all sites and sums act on the named sites only. "
  "The pair-counting operator, the global spin flip, state parities and the ferromagnetic, antiferromagnetic and other special states are what their names say in the reported product basis.",
  ["inputs", "configurations"], "all spins and numbers of sites, every site and ordered pair of sites, all basis states",
  "Tests use spin 1/2 on a few sites.",
  [BASE, SPI], [("spin matrices", SPI + ":get_splus, get_sminus, get_sx, get_sy, get_sz"), ("operators", BASE + ":get_single_site_op, get_two_site_op"), ("special states", SPI + ":find_special_states, get_npairs_op, get_allsite_op, get_swap_up_down_op, get_state_parity")])
p("S01", "Coordinate symmetries permute the sites as they move the positions",
  "For a rotation, reflection, inversion or translation that maps a cluster onto itself (modulo its periodicity), the reported site images and cycles are exactly where the transformation moves each site, the cycles partition the sites and the order of the transformation is the least common multiple of the cycle lengths. "
  "A transformation that does not map the cluster to itself is rejected instead of giving a wrong permutation.",
  ["inputs", "configurations"], "all clusters, symmetry transformations about all centres, all permutations as transformations",
  "The tests use a few symmetric clusters; images across oblique boundaries and non-symmetries are not explored.",
  [SYM, GEO], [("transformations", SYM + ":getRotFn, getReflFn, getInversionFn, getTranslFn"), ("site images and cycles", SYM + ":getTransformedSites, findSiteCycles")])
p("S02", "Symmetry operators move particles and spins as the site permutation says",
  "The many-body operator of a site permutation is unitary and carries every one-site operator from its site to the image site (up to the same for all species), products of permutations give products of operators (up to fermion sign conventions fixed by the vacuum), and the trivial permutation gives the identity. "
  "Swap operators exchange exactly the two named sites and are their own inverse.",
  ["inputs", "histories"], "all permutations and products of permutations, all basis states, all species and spins",
  "Tests look at one or two cycles; fermionic signs and longer cycles are not exhausted.",
  [BASE, FER, SPI], [("permutation operators", BASE + ":get_xform_op"), ("swaps", FER + ":get_swap_op; " + SPI + ":get_swap_op")])
p("S03", "Cyclic and translation projectors split the space into momentum sectors",
  "The projectors of a cyclic symmetry or of two commuting translations are isometries onto mutually orthogonal sectors, on each of which the symmetry acts as the phase of its momentum, and the dimensions of all sectors add up to the whole space. "
  "Each sector appears once, with its own momentum label; sectors without states may be absent.",
  ["inputs", "configurations"], "all permutations of sites as generators, all periodic clusters, all basis states",
  "Tests compare spectra of a few systems, where missing or doubled sectors can cancel.",
  [SYM], [("projectors", SYM + ":getZnProjectors, get2DTranslationProjectors, get_symmetry_projectors, reduce_symm_projector")])
p("S04", "Dihedral and 3x3-torus projectors resolve the irreducible representations",
  "The projectors of the groups D2 to D7 and of the space group of the 3x3 torus are isometries onto mutually orthogonal subspaces that are invariant under the group, together span the space, and each carries the character of its own irreducible representation in the documented order. "
  "Character tables that are not tables of orthogonal characters are rejected.",
  ["inputs", "configurations"], "all pairs of generators that are permutations of sites, all basis states",
  "Tests compare spectra of a few polygons; representations of multidimensional type, quotients and odd n are not explored.",
  [SYM], [("projectors", SYM + ":getD2Projectors ... getD7Projectors, getC4V_and_3byb3"), ("reduction", SYM + ":reduce_symm_projector"), ("validation", SYM + ":validate_char_table")])
p("S05", "Particle-number and subspace projectors select exactly the matching states",
  "Restricting the particle number of each species yields a projector onto exactly the occupation states with these numbers, ordered consistently with the reported basis. "
  "Projectors of a diagonal operator resolve its distinct eigenvalues: one isometry per distinct (or requested) value, orthogonal to each other and complete; subspace overlaps of states are their weights in these sectors.",
  ["inputs", "configurations"], "all particle numbers (also impossible ones), all diagonal operators with few distinct values, all subsets of eigenvalues",
  "Tests use half filling of small systems.",
  [FER, BASE], [("number sectors", FER + ":__init__, get_state_vects"), ("subspace projectors", BASE + ":get_subspace_projs, get_subspace_overlaps")])
p("H01", "The fermion Hamiltonian is the Hubbard Hamiltonian of the given parameters",
  "For every cluster, number of species, boundary twist and form of the parameters (number, per species, matrices), every matrix element of the Hamiltonian is that of -t hopping (with twist phases) plus inter-species interaction on each site, same-species interaction between neighbours, minus chemical potential, plus site potential. "
  "The Hamiltonian is hermitian, each term is available as an operator of its own and the Hamiltonian is their sum.",
  ["inputs", "configurations"], "all clusters, species, twists and combinations of parameter forms; every matrix element",
  "Tests compare a few spectra; combinations of forms of the parameters, twists and three species are not covered.",
  [FER], [("terms", FER + ":get_kinetic_op, get_u_interspecies_op, get_u_samespecies_op, get_potential_op, get_chemical_pot_op, createH"), ("parameter forms", FER + ":get_hopping_mat, get_samespecies_int_mat, __init__")])
p("H02", "The spin Hamiltonian is the XYZ Hamiltonian of the given couplings and fields",
  "For every cluster, spin length and form of the parameters (number, matrix, list of bonds, per-site fields), every matrix element of the Hamiltonian is that of the sum over pairs, each counted once, of 2(Jx SxSx + Jy SySy + Jz SzSz) minus h.S on every site, with the documented Rydberg convention; a coupling given as a number acts between neighbours, with the phase of their bond. "
  "Van der Waals couplings are C6 over the sixth power of the shortest distance inside the cutoff, and the Hamiltonian is hermitian.",
  ["inputs", "configurations"], "all clusters, spins and combinations of parameter forms; every matrix element",
  "Tests compare a few spin-1/2 spectra.",
  [SPI], [("couplings", SPI + ":get_interaction_mat, get_interaction_mat_c6, get_field_mat, get_rydberg_detunes"), ("Hamiltonian", SPI + ":createH, get_interaction_op, get_field_op")])
p("H03", "Hamiltonians built in symmetry sectors have exactly the full spectrum",
  "Creating the Hamiltonian with a projector gives the projected Hamiltonian P H P^+, for every projector. "
  "For every symmetry of the cluster the spectra of all sectors together, with multiplicity, are the spectrum of the full Hamiltonian.",
  ["inputs", "configurations"], "all clusters with their cyclic, translation, dihedral and particle number symmetries, and generic isometries",
  "Tests compare a few systems and symmetries.",
  [FER, SPI, SYM], [("projection", FER + ":createH; " + SPI + ":createH"), ("projectors", SYM + ":get*Projectors")])
p("H04", "Malformed parameters and unknown options are refused, never guessed",
  "Building a fermion or spin model with a parameter array whose size fits neither the documented single value, per species, per site nor per bond form raises an exception, "
  "and so does a uniform complex (hence non-hermitian) hopping. Every documented form is accepted. An option word (statistics, dimension, mode, type of function) "
  "other than the documented ones raises an exception in every function that takes one, and so do numbers of temperatures and chemical potentials that do not fit together.",
  ["inputs"], "all array shapes of small rank and extent for every parameter; all option arguments; all pairs of numbers of temperatures and chemical potentials",
  "Tests never pass malformed parameters.",
  [FER, SPI, BASE, GAS, GRN, GEO], [("shapes", FER + ":__init__; " + SPI + ":get_interaction_mat, get_field_mat"), ("options", "format, mode, dim, type arguments in all modules")])
p("E01", "Diagonalisation returns true, sorted, orthonormal eigenpairs, as many as asked",
  "Diagonalising a hermitian matrix (sparse or dense, real or complex) returns every eigenvalue in ascending order with normalised eigenvectors that satisfy the eigenvalue equation and are orthogonal. "
  "Asking for a number of eigenvalues of a sparse matrix returns that many, sorted, each an eigenvalue of the matrix with its eigenvector.",
  ["inputs"], "all small hermitian matrices, Hamiltonians of small clusters, all numbers of eigenvalues",
  "Tests compare ground state energies.",
  [BASE], [("diagonalisation", BASE + ":diagH")])
p("Q01", "Quench time evolution is the exact unitary evolution of the initial state",
  "The state at each requested time is exp(-iHt) applied to the initial state (projected on the supplied eigenstates), for any set of times, several initial states at once, and any Hamiltonian. "
  "Norm and energy distribution are conserved and time zero returns the initial state.",
  ["inputs", "histories"], "all basis states and superpositions, sets of times in any order, numbers of initial states",
  "Tests compare one or two analytic quenches.",
  [BASE], [("evolution", BASE + ":quench_time_evolve")])
p("M01", "Expectation values, overlaps and correlators equal their definition",
  "Overlaps are inner products of the given states and norms their squared norms; expectation values of an operator, site-resolved expectation values and two-site correlators are the quadratic forms of the corresponding operators, for states given as one vector, as columns or sparse, with or without a projector, and for default or explicit lists of sites. "
  "The reported site lists say which entry belongs to which sites.",
  ["inputs", "configurations"], "all operators, pairs of sites and species, forms of the states, projectors",
  "Tests use few states and never all pairs.",
  [BASE], [("expectation values", BASE + ":get_exp_vals, get_overlaps, get_norms, get_exp_vals_sites, get_corr_sites, get_matrix_elems")])
p("T01", "Thermal weights and averages follow Boltzmann at any temperature",
  "Thermal weights are non-negative, sum to one, are Boltzmann weights relative to the ground state (equal among degenerate ground states at zero temperature) and do not depend on a shift of all energies, however large. "
  "Thermal expectation values, site-resolved averages and correlators are the averages with these weights, for one or several temperatures.",
  ["inputs"], "all spectra with degeneracies, energy shifts, temperatures including zero",
  "Tests use one spectrum at moderate temperature: overflow, degeneracy and zero temperature are not covered.",
  [BASE], [("weights", BASE + ":get_thermal_weights, get_exp_vals_thermal, get_thermal_exp_sites, get_thermal_corr_sites")])
p("T02", "Thermal averages do not depend on how the spectrum is split into sectors",
  "The partition function computed from a Hamiltonian, or from any division of the spectrum into sectors, is the sum of the Boltzmann factors (relative to the reported ground state energy). "
  "Combining the thermal averages of sectors gives the average over the whole space for every division, temperature and shift of energy.",
  ["inputs", "configurations"], "all assignments of levels to sectors, all temperatures",
  "Tests combine one pair of sectors.",
  [BASE], [("sectors", BASE + ":get_partition_fn_hamiltonian, get_partition_fn_sectors, thermal_avg_combine_sectors")])
p("R01", "Retarded response and optical conductivity have their spectral representation",
  "The retarded response of two operators, for a spectrum sorted with the ground state first, is the sum over pairs of eigenstates of the thermal weight difference (sum for fermionic operators) times the real part of the product of matrix elements, as a line of the given width at the transition energy, at any temperature and energy shift. "
  "The optical conductivity has the Kubo form and its integral obeys the kinetic energy sum rule on open clusters.",
  ["inputs"], "all spectra, matrix element patterns, temperatures, frequencies and widths",
  "Tests check one system.",
  [BASE, FER], [("response", BASE + ":get_response_fn_retarded"), ("conductivity", FER + ":get_optical_cond_fn, integrate_conductivity")])
p("J01", "The current operator is the time derivative of the polarisation",
  "For every cluster, hopping and direction the current operator is hermitian, equals i times the sum over bonds of the hopping amplitude times the bond displacement along the direction, and on open clusters is the commutator of Hamiltonian and dipole operator. "
  "It conserves the particle number of each species.",
  ["inputs", "configurations"], "all clusters, hopping forms, directions, species; every matrix element",
  "The tests check no current operator on periodic or twisted clusters.",
  [FER], [("current", FER + ":get_current_op")])
p("N01", "Cluster enumeration lists every connected cluster of each order exactly once",
  "Enumerating the clusters of the infinite square lattice yields, for each order, exactly the connected clusters with that many sites: one per symmetry class with their correct number of distinct embeddings per site, or one per translation class if symmetry is not used. "
  "The symmetry orbit of a cluster consists of its distinct images under the point group, independent of site order and position.",
  ["inputs", "configurations"], "all orders up to the bound, all clusters, labellings and positions",
  "Tests compare counts up to a small order.",
  [NLC], [("enumeration", NLC + ":get_clusters_next_order, get_all_clusters"), ("orbits", NLC + ":get_clusters_rel_by_symmetry")])
p("N02", "Subcluster multiplicities count the embeddings in the parent exactly",
  "For every parent cluster the reported subclusters are its connected subsets of each size, each once, and the multiplicity matrices count in how many ways each cluster occurs in each larger one, with and without identifying clusters related by symmetry, for any labelling of the sites. "
  "The infinite-lattice tables agree with a direct count of embeddings.",
  ["inputs", "configurations"], "all parent clusters up to the bound, labellings, positions",
  "Tests check one or two parents.",
  [NLC], [("subclusters", NLC + ":get_subclusters_next_order, get_all_subclusters, get_reduced_subclusters, reduce_clusters_by_geometry"), ("tables", NLC + ":get_all_clusters_with_subclusters, map_between_cluster_bases")])
p("N03", "The linked-cluster expansion is exact inclusion-exclusion",
  "The weight of each cluster is its value minus the weights of all its subclusters with multiplicity, the order sums add weights times multiplicity order by order, and the result is the sum of the orders, for values of any shape. "
  "For a finite parent expanded to its full order the expansion reproduces the value of the parent identically; for extensive additive quantities every order beyond the range vanishes.",
  ["inputs"], "all multiplicity matrices, splits into orders, shapes of values, parents",
  "Tests check one physical example.",
  [NLC], [("expansion", NLC + ":get_nlce_exp_val")])
p("N04", "Euler resummation is the Euler transform of the series of orders",
  "The resummed terms are those of the Euler transform with the given parameter, linear in the series, and the resummed value is their sum; for a geometric series they are the exact transformed geometric terms. "
  "Values with extra dimensions are resummed element by element.",
  ["inputs"], "all series up to the bound (by linearity: unit series), parameters, shapes",
  "Tests check one series.",
  [NLC], [("resummation", NLC + ":euler_resum")])
p("F01", "Free-gas densities and correlators equal the exact Fock-space averages",
  "Density, density correlations and the singles, doubles and spin correlations of the non-interacting lattice gas equal the exact grand canonical averages on the finite periodic lattice, for every separation, dimension, temperature (including zero and infinite) and chemical potential. "
  "Array arguments give the element by element results.",
  ["inputs"], "all lattices, temperatures, chemical potentials, separations",
  "Tests compare half filling or one lattice.",
  [GAS], [("averages", GAS + ":fg_density, fg_corr, fg_singles*, fg_doubles*, fg_sz_corr, fg_sx_corr")])
p("F02", "Free-gas Green's functions equal the exact ones in momentum and real space",
  "The greater, lesser, retarded, advanced and time-ordered Green's functions of the non-interacting gas (and their chemical potential derivatives where offered) equal the exact expectation values for every momentum, separation, time, temperature and chemical potential. "
  "Real-space functions are the lattice Fourier transforms of the momentum-space ones.",
  ["inputs"], "all lattices, momenta, separations, times of both signs, temperatures",
  "Tests compare one case each.",
  [GAS], [("Green's functions", GAS + ":fg_kspace_gfns, fg_realspace_gfn")])
p("F03", "Free-gas thermodynamics: filling, compressibility, response, inversion agree",
  "The Fermi function (at any temperature) and its derivatives (finite temperature) are exact at any argument without overflow; compressibility is the derivative of density; the density and magnetic response at each allowed momentum equals the exact Kubo formula and at zero frequency the thermodynamic derivative. "
  "The chemical potential found for a density reproduces that density, and the density of states is normalised.",
  ["inputs"], "all lattices, temperatures, chemical potentials, momenta, densities",
  "Tests compare few values at moderate temperature.",
  [GAS], [("Fermi functions", GAS + ":fermi, fermi_derivatives"), ("response", GAS + ":fg_density_response, fg_magnetic_response, fg_compressibility"), ("inversion", GAS + ":fg_mu"), ("density of states", GAS + ":get_dos, get_dos2, get_energy_spacing, get_allowed_kvects")])
p("K01", "Imaginary-time and frequency functions are consistent transforms of the spectrum",
  "Matsubara frequencies are the odd (fermions) or even (bosons) multiples of pi over beta; the imaginary-time and imaginary-frequency Green's functions obtained from a spectral function, directly or through the kernels, are its exact (anti)periodic transforms, agree with the non-interacting level formula, and are transforms of each other. "
  "The time response to a field snap-off is the transform of the response function and linear in it.",
  ["inputs"], "all sampled spectral functions (by linearity: unit samples), frequency grids, temperatures, times in [-beta, beta]",
  "Tests use one spectral function.",
  [GRN], [("transforms", GRN + ":get_grnfn_*, grnfn_imagtime_ft, grnfn_imagfrq_ft, get_noninteracting_*"), ("linear response", GRN + ":phi_t, obs_kt, field_snap_off_w")])
p("P01", "The NLCE batch pipeline gives one result for any job order and repetition",
  "Running the cluster-generation, subcluster, diagonalisation and aggregation jobs in any order their inputs allow, with any jobs repeated, ends with the same result as the in-memory expansion. "
  "A job whose inputs are missing fails without creating or changing result files, and jobs of one stage touch disjoint files.",
  ["schedules", "histories"], "all reachable sets of finished jobs, every job run from each of them",
  "There are no tests of the batch scripts.",
  CL, [("scripts", "cluster/*.py")], "explicit-state exploration of the job graph, running the real scripts in every reachable state")
p("P02", "A pipeline job that dies at any point cannot corrupt the result",
  "If a pipeline job is killed at any point, including part way through writing a file, or the end of its output file is lost, later jobs either fail or use only complete data, never producing a different final result. "
  "Running the killed job again completes the pipeline with the correct result.",
  ["crash_points", "fault_sequences"], "every byte written and every file system operation of every job",
  "There are no tests of crashes.",
  CL + [NLC], [("atomic cluster file", "cluster/generate_clusters.py"), ("reading of results", "cluster/aggregate_*.py")], "exhaustive crash point enumeration on the real scripts, with recovery")
p("P03", "Saving and loading a model restores it exactly, for any history",
  "Loading a saved .pkl model makes the loading object answer as the saved one did (parameters, geometry, operators, Hamiltonian), whatever it was before; a later save replaces the file and loading leaves it unchanged. "
  "An unsupported file extension is rejected without touching existing files.",
  ["histories", "inputs"], "all pairs of models, file names, and histories of saves and loads",
  "The tests save nothing.",
  [BASE], [("save and load", BASE + ":save, load")])
p("P04", "The batch driver treats every cluster once and aggregates finished jobs only",
  "Whatever the number of clusters, the order in which the batch jobs finish and the moments at which the driver looks at the files, each cluster is submitted exactly once per stage. "
  "A stage is aggregated only when all its files are complete, and the driver ends with the result of the in-memory expansion.",
  ["schedules", "histories"], "all completion orders relative to the polls, all visible intermediate states of each job, all numbers of clusters around the size of an array",
  "There are no tests of the batch driver.",
  CL + ["cluster/run_on_cluster.sh"], [("driver", "cluster/run_on_cluster.sh"), ("array jobs", "cluster/slurm_array.sh"), ("files appear when complete", "cluster/find_subclusters.py, cluster/diag_cluster.py")], "the real driver script under a controlled batch system, all schedules enumerated")
p("X01", "Queries have no side effects and do not depend on what was asked before",
  "Asking any question of a model, cluster or library function changes neither the object nor the arguments passed to it. "
  "The answer is the same first or after any other queries, repeated, on another model that shares the same cluster, or in a new process.",
  ["histories"], "all ordered pairs (thorough: triples) of queries on the same, on sharing and on different objects",
  "Tests run each query once on fresh objects.",
  [BASE, FER, SPI, GEO, SYM, NLC, GAS, GRN], [("operators and cached attributes", BASE + ":__init__"), ("array arguments", "all modules")], "exhaustive exploration of query histories on the real objects, each compared with a fresh process")

if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for d in P:
            assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
            f.write(json.dumps({k: v for k, v in d.items() if not k.startswith("_")}) + "\n")
    checks = []
    for d in P:
        m = importlib.import_module("mc.checks." + d["id"].lower())
        assert m.PROP == d["id"]
        checks.append({"property": d["id"], "quick_cmd": "./check.sh %s quick" % d["id"], "thorough_cmd": "./check.sh %s thorough" % d["id"],
                       "technique": d["_t"] or "bounded-exhaustive explicit-state enumeration of a reference model, every model case replayed on the implementation and compared",
                       "level": "model_checking",
                       "level_note": "Exhaustive within: %s. Beyond these bounds nothing is shown. %s" % (m.BOUNDS["quick"], " ".join("Assumes: %s." % a for a in getattr(m, "ASSUMPTIONS", [])))})
    man = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [],
           "notes": "check.sh runs /opt/venv/bin/python on the sources in /repo directly (Python, nothing to build). No hooks in /repo."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
