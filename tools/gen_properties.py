"""Writes /verif/properties.jsonl (kept so that the statements have one source)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": observe, "hook_needed": hook}})

I = "dynaphopy/__init__.py"; D = "dynaphopy/dynamics.py"; A = "dynaphopy/atoms.py"
PS = "dynaphopy/power_spectrum/__init__.py"; L = "dynaphopy/interface/phonopy_link.py"
IO = "dynaphopy/interface/iofile/__init__.py"; TP = "dynaphopy/interface/iofile/trajectory_parsers.py"

prop("C01", "Atomic displacements are periodic differences to the reference site",
 "For every trajectory, reference positions and MD cell (orthogonal or not), the displacement of each atom at each step equals its position minus its reference position minus the lattice vector obtained by rounding that difference to the nearest integers in cell coordinates. The same holds for every atom of the whole relative trajectory, in memory or memory mapped, so displacements do not change when an atom is moved by any lattice vector, and neither the trajectory nor the structure is modified.",
 ["inputs"], "all real trajectories and reference positions, all invertible cells of two to four dimensions, any number of steps and atoms, memory mapped or not",
 "The tests only compare a few histograms of small displacements in test crystals; no test has atoms that cross a boundary of a skewed cell.",
 ["c/displacements.c", D, "dynaphopy/analysis/coordinates.py"],
 [("atomic_displacements, matrix_inverse, matrix_multiplication", "c/displacements.c"), ("get_relative_trajectory", D)],
 ["dynaphopy.displacements.atomic_displacements", "Dynamics.get_relative_trajectory"])

prop("C02", "Maximum-entropy spectrum is the Burg all-poles spectrum of the signal",
 "For every signal, number of coefficients M < N-1, time step and list of frequencies, the maximum entropy power spectrum is, for the real and the imaginary part added together, time_step * P / |1 - sum_k a_k exp(2 pi i f k time_step)|^2, where a_1..a_M and the residual power P are those of Burg's recursion over all N samples. A part whose prediction error vanishes contributes zero; each frequency's value depends only on that frequency, and each column of a set of signals is transformed independently.",
 ["inputs"], "all complex signals of any length, all coefficient numbers below the length, all time steps and frequency lists",
 "The tests compare fitted peak positions of three harmonic trajectories with stored numbers to a loose tolerance, with one coefficient number.",
 ["c/mem.c", PS], [("GetCoefficients (Burg recursion)", "c/mem.c"), ("FrequencyEvaluation", "c/mem.c"), ("get_mem_power_spectra", PS)],
 ["dynaphopy.power_spectrum.mem.mem", "power spectrum algorithm 1"])

prop("C03", "Direct Fourier spectrum is the transform of the velocity correlation",
 "For every signal v of N samples, time step dt, correlation step s and frequency f, the direct spectrum equals dt/floor(N/s) times the real part of the sum over lags i = 0, s, 2s, ... < N and starts 0 <= j < N-i-s of the lag terms conj(v_j) v_{j+i} exp(2 pi i f i dt), taken twice per lag by the rectangular rule and once at lag i plus once at lag i+s by the trapezoid rule. Each frequency and each column is transformed independently of the others.",
 ["inputs"], "all complex signals of any length, all correlation steps 1 <= s <= N, both integration rules, all time steps and frequency lists",
 "No existing test selects this algorithm at all.",
 ["c/correlation.c", PS], [("EvaluateCorrelation", "c/correlation.c"), ("get_fourier_direct_power_spectra", PS)],
 ["dynaphopy.power_spectrum.correlation.correlation_par", "power spectrum algorithm 0"])

prop("C04", "Native kernels stay in bounds and do not depend on thread scheduling",
 "Every memory access of the three native kernels lies inside a live allocation, whatever the lengths of the arrays they are given, every work array is released exactly once on every path of a successful call, and their input arrays are never written. The result of each call is the same for any number of threads and any order in which they run the loop over frequencies, because no two iterations touch the same location and none reads what another writes.",
 ["inputs", "schedules"], "all array lengths and parameter values accepted by the spectra (including empty frequency lists), all thread counts and schedules",
 "Tests run one size on one thread without sanitizers: an overflow or a race may pass unnoticed.",
 ["c/mem.c", "c/correlation.c", "c/displacements.c"],
 [("malloc sizes against index ranges; private loop variables", "c/*.c"), ("omp parallel for over frequencies", "c/mem.c, c/correlation.c")],
 ["calls of the three extension functions"])

prop("C05", "FFT spectra average equal segments covering the whole trajectory",
 "For every signal length, time step and requested resolution, the FFT spectrum is the average, over segments of one common length L = round(1/(dt*resolution)) (or the whole signal when it is shorter), of dt times the modulus of the Fourier transform of the segment's centred autocorrelation divided by its length, linearly interpolated at the requested frequencies. There are k+1 segments with k = floor((N-1)/L), segment i starting at sample floor(i(N-L)/k), so each lies inside the signal, the first starts at its first sample and the last ends at its last; the two FFT back ends give the same spectrum.",
 ["inputs"], "all signal lengths, time steps and resolutions (segments from 2 samples to longer than the signal)",
 "One test uses the FFT, at a single length and resolution, comparing fitted peaks only.",
 [PS], [("_division_of_data", PS), ("_numpy_power / _fftw_power", PS)], ["power spectrum algorithms 2 and 3"])

prop("C06", "Spectra are assembled from all atoms, coordinates and wave vectors",
 "The full power spectrum is the sum, over every atom and coordinate (or only those selected by the atom type and coordinate projections), of the spectrum of that mass-weighted velocity, and it does not depend on whether output is silenced; the partial spectra give one column per atom that sums its three coordinates, so they add up to the full spectrum. The wave vector spectrum is the sum over the projected atoms and coordinates, the phonon spectrum has one column per mode, and with symmetry on both are the average over the equivalent wave vectors, leaving the selected wave vector unchanged.",
 ["inputs", "configurations"], "all trajectories and structures, all atom type and coordinate selections, symmetry on and off, silent or not, every available algorithm",
 "Tests only look at fitted phonon peaks; the full and partial spectra are never computed.",
 [I, PS], [("get_power_spectrum_full / _partials / _wave_vector / _phonon", I)], ["Quasiparticle spectra getters"])

prop("C07", "Wave-vector projection is the normalised phase sum over the crystal",
 "For every trajectory, supercell, primitive cell, wave vector and atom type selection, the projected velocity of primitive atom j and coordinate k at time t is the sum over all atoms i of the MD cell whose type is j (and is selected) of the mass-weighted velocity of atom i times exp(-i q.x_i), divided by the square root of the number of primitive cells, with x_i the reference position of atom i. The Cartesian wave vector is the reduced one times 2 pi times the inverse transposed primitive cell, and the velocities are left unmodified.",
 ["inputs"], "all velocities, cells (also skewed, with non-trivial primitive matrices), supercells, wave vectors and atom selections",
 "Tests use cubic or hexagonal crystals with one supercell and only look at fitted peaks with wide tolerances.",
 ["dynaphopy/projection.py", I, A], [("project_onto_wave_vector", "dynaphopy/projection.py"), ("get_q_vector", I)],
 ["projection.project_onto_wave_vector", "Quasiparticle.get_vc"])

prop("C08", "Phonon-mode projection uses the conjugate eigenvector of each mode",
 "For every wave-vector projection and set of eigenvectors, the projection onto mode k is the sum over atoms and coordinates of the projected velocity times the complex conjugate of component (atom, coordinate) of eigenvector k. The eigenvectors handed to the projection are those of the dynamical matrix at the selected wave vector, one per frequency in the same order, arranged as mode, atom, coordinate and orthonormal, so with all modes the projection preserves the total squared modulus.",
 ["inputs"], "all complex projected velocities, all eigenvector sets, all wave vectors of all structures with force constants",
 "Tests sample two wave vectors and never check phases or individual mode components.",
 ["dynaphopy/projection.py", L, I], [("project_onto_phonon", "dynaphopy/projection.py"), ("obtain_eigenvectors_and_frequencies", L)],
 ["projection.project_onto_phonon", "Quasiparticle.get_vq", "Quasiparticle.get_eigenvectors"])

prop("C09", "Every supercell quantity lists atoms in the same order",
 "For every structure and every supercell (also with different sizes along each axis), positions, scaled positions, masses, charges, elements, atomic numbers and atom types of the supercell all list the images of unit cell atom 0 first, then atom 1 and so on, the images of one atom running fastest along the first axis, each image displaced by the corresponding integer combination of unit cell vectors. The supercell lattice vectors are the unit cell ones multiplied by the size along each axis, scaled positions times cell give the positions, and repeating a request gives the same answer.",
 ["inputs"], "all unit cells (also skewed), all atom lists and all supercell sizes",
 "Tests use one cubic 2x2x2 supercell where any consistent permutation is invisible.",
 [A, IO, D], [("get_positions / get_masses / get_atomic_elements / ...", A), ("dynaphopy_order", IO)], ["Structure getters with a supercell argument", "iofile.dynaphopy_order"])

prop("C10", "The MD supercell is recognised, and mismatching cells are rejected",
 "When each MD lattice vector is, within tolerance, a whole multiple of the corresponding unit cell vector length, the reported supercell sizes are those multiples and the number of atoms is their product times the unit cell atoms; when the summed deviation from whole multiples, relative to the norm of the sizes, exceeds one per cent the calculation stops instead of continuing. A wave vector is reported commensurate exactly when it is a reciprocal lattice vector of the MD supercell.",
 ["inputs"], "all unit cells and MD cells, deviations of either sign along any axis, all primitive matrices and reduced wave vectors",
 "Tests always pass perfectly matching cells; the rejection branch and non-commensurate wave vectors are never reached.",
 [D, I], [("get_supercell_matrix", D), ("check_commensurate", I)], ["Dynamics.get_supercell_matrix", "Dynamics.get_number_of_atoms", "Quasiparticle.check_commensurate"])

prop("C11", "Atom types are the classes of atoms equivalent by primitive translation",
 "Two atoms of the unit cell get the same type exactly when their separation is a primitive lattice vector (within tolerance) and their masses are equal; types are numbered 0,1,2,... by first appearance. The result depends neither on the order in which supercell quantities are requested nor on a previous primitive cell, and the number of types and of primitive atoms is the number of classes.",
 ["inputs", "histories"], "all structures and primitive matrices, any order of requests, primitive matrix set before or after other requests",
 "Tests only read the total number of types of four crystals.",
 [A], [("get_atom_type_index / set_primitive_matrix", A)], ["Structure.get_atom_type_index", "Structure.get_number_of_atom_types"])

prop("C12", "Time step, velocities and mass weighting follow the trajectory",
 "The time step is the mean difference of consecutive times (to 8 decimals); when a trajectory has no velocities, the velocity of each atom and coordinate is the central difference of its displacement divided by the time step (one-sided at the two ends), so it does not jump when an atom crosses a cell boundary. The mass-weighted velocity of each atom is its velocity times the square root of its own mass, for memory-mapped and in-memory data alike, and given velocities are used as they are.",
 ["inputs", "configurations"], "all trajectories, time steps, masses and supercells, memory mapped or not, velocities given or derived",
 "Tests do not cross cell boundaries nor check individual velocities.",
 [D], [("velocity / get_velocity_mass_average / get_time_step_average", D)], ["Dynamics.velocity", "Dynamics.get_velocity_mass_average", "Dynamics.get_time_step_average"])

prop("C13", "Cropping keeps the last steps of every quantity together",
 "After cropping to the last n steps, positions, displacements, velocities, times and energies that are available all hold exactly the last min(n, N) steps of the data before, in the same order and aligned with each other, and everything derived from them (mass-weighted velocities, mean displacements, average positions) is that of the cropped data, whatever had been requested before. Cropping to none or a non-positive number changes nothing.",
 ["histories", "inputs"], "any order of requests before and after one or several crops, any n, data given as positions, scaled positions or velocities, in memory or memory mapped",
 "No test crops after having requested derived data.",
 [D], [("crop_trajectory", D)], ["Dynamics.crop_trajectory followed by any getter"])

prop("C14", "Results never depend on earlier requests or settings",
 "After any sequence of settings changes (through its methods) and requests on an analysis object, each projection, spectrum and eigenvector set it returns is the one a new object with the same trajectory and the final settings returns. In particular changing wave vector, algorithm, frequency range or resolution, coefficient number, atom type selection or trajectory length is never answered with stale data.",
 ["histories"], "all finite sequences of settings changes (wave vector, algorithm, frequency limits, resolution, coefficients, atom type selection, crop) and requests (projections, eigenvectors, frequencies, all spectra)",
 "Each test uses one object with one sequence of calls; stale caches need a specific order of changes and requests.",
 [I, "dynaphopy/parameters.py"], [("full_clear / power_spectra_clear / force_constants_clear and the setters calling them", I)],
 ["Quasiparticle setters and getters"],
 [("cached projections and spectra", "None means not computed for the present settings", I)])

prop("C15", "Thermal functions are those of independent harmonic oscillators",
 "For every temperature, non-negative density of states and increasing positive frequency grid, the total energy, free energy, entropy and heat capacity are the integrals of the density of states times the harmonic oscillator expressions, so free energy = energy - temperature * entropy, the heat capacity is the temperature derivative of the energy, and all are linear in the density of states. The density of states obtained from a power spectrum is twice the spectrum divided by Boltzmann's constant times temperature (or by the quantum oscillator energy on request) per unit cell.",
 ["inputs"], "all temperatures above zero, all densities of states, all increasing frequency grids",
 "One test compares the numbers of one crystal at one temperature with stored values.",
 ["dynaphopy/analysis/thermal_properties.py"], [("get_total_energy / get_free_energy / get_entropy / get_cv / get_dos", "dynaphopy/analysis/thermal_properties.py")],
 ["the functions of dynaphopy.analysis.thermal_properties"])

prop("C16", "Reported peak parameters describe the fitted curve",
 "For every successful fit the reported position, maximum, width and area are those of the fitted curve: its top and height above the base line, full width at half maximum and integral for the symmetric Lorentzian; its top and height there, twice its local half width and its integral from zero to the last analysed frequency for the skewed one; its resonance frequency and height there, damping constant and the same integral for the damped oscillator. A fit that fails is marked unsuccessful instead and reported as zeros. Peaks of a set are analysed one by one in order, each with its own spectrum, so positions and widths come out one per mode, with any thermal expansion shift added to the position.",
 ["inputs"], "all spectra that can be fitted and all three peak shapes, all numbers of modes",
 "Tests compare positions only for one shape, with one decimal.",
 ["dynaphopy/analysis/fitting/fitting_functions.py", "dynaphopy/analysis/fitting/__init__.py"],
 [("get_fitting of each shape", "dynaphopy/analysis/fitting/fitting_functions.py"), ("phonon_fitting_analysis", "dynaphopy/analysis/fitting/__init__.py")],
 ["get_fitting()", "fitting.phonon_fitting_analysis"])

prop("C17", "Degenerate modes share the average spectrum of their group",
 "For every ascending list of frequencies, the degenerate groups are a partition of the modes: two neighbours are together exactly when they differ by less than the cut-off. With symmetry on, the spectrum analysed for a mode is the average of the spectra of its group, so all members of a group obtain the same position and width and the sum over modes is preserved.",
 ["inputs"], "all ascending frequency lists and cut-offs, all spectra",
 "Degenerate groups are only exercised through fitted values of cubic crystals.",
 ["dynaphopy/analysis/fitting/__init__.py"], [("degenerate_sets / average_phonon", "dynaphopy/analysis/fitting/__init__.py")],
 ["fitting.degenerate_sets", "fitting.average_phonon", "fitting.phonon_fitting_analysis"])

prop("C18", "Displacement parameters are the second moments of the displacements",
 "The mean displacement matrix of each atom type is the average over time and over all the atoms of that type of the product of displacement components, relative to the reference positions or to the average positions as requested, whatever was requested before. The anisotropic displacement parameters are this matrix (about average positions) in Cartesian, crystal (inverse cell transposed * U * inverse cell) or reciprocal-length normalised form.",
 ["inputs", "histories"], "all trajectories, supercells, types with any number of atoms, both references in any order of requests, all three coordinate forms, skewed cells",
 "One test compares the parameters of one crystal with stored numbers.",
 [D, I], [("get_mean_displacement_matrix", D), ("get_anisotropic_displacement_parameters", I)],
 ["Dynamics.get_mean_displacement_matrix", "Quasiparticle.get_anisotropic_displacement_parameters"])

prop("C19", "Average positions are time averages, inside the cell",
 "The average position of every atom is its reference position plus the time average of its displacement, moved by whole lattice vectors so that its cell coordinates lie between 0 and 1. Requested for the unit cell, the average displacement is that over all the atoms of the same type in the MD cell, and the position is inside the unit cell.",
 ["inputs"], "all trajectories, supercells, skewed cells and types with any number of atoms",
 "No test calls it.",
 [D], [("average_positions", D)], ["Dynamics.average_positions"])

prop("C20", "Trajectory readers return the requested steps, times and atom order",
 "Reading a LAMMPS dump, XDATCAR or OUTCAR file from step a to step b returns exactly the steps a..b of the file (or those of the last ones when limited), each with its own time and all atoms, in memory or memory mapped, converted to the orientation of the unit cell and with the file's cell. With an atom order template, atom k of the result is the file atom whose template entry is k, and the file type is recognised from its content.",
 ["inputs", "configurations"], "all files in these formats, all windows, memory mapped or not, orthogonal and tilted cells, any template",
 "Two tests read one file each without a window.",
 [TP, IO], [("read_lammps_trajectory / read_VASP_XDATCAR / read_vasp_trajectory", TP), ("get_trajectory_parser / get_correct_arrangement", IO)],
 ["trajectory_parsers functions", "iofile.get_trajectory_parser"])

prop("C21", "HDF5 files give back what was saved",
 "Data saved to an HDF5 file and read back with a structure give the same trajectory, velocities, times, supercell and, if saved, projected velocities and wave vector; a requested range of steps selects the same steps of every quantity. Joining files concatenates their steps in order, skipping the requested first steps of each, with one increasing time per step.",
 ["inputs"], "all trajectories and velocities, all ranges of steps, all numbers of joined files",
 "No test reads or writes these files.",
 [IO, "scripts/concath5"], [("save_data_hdf5 / initialize_from_hdf5_file", IO), ("concath5", "scripts/concath5")],
 ["iofile.save_data_hdf5", "iofile.initialize_from_hdf5_file", "scripts/concath5"])

prop("C22", "Generated POSCAR and LAMMPS structures describe the same crystal",
 "Writing a structure or any supercell of it as POSCAR (Cartesian or direct) and reading it back gives the same cell, elements and positions, in the same order, to the printed precision. A POSCAR of either style and any scale factor (a negative one is the volume of the cell) is read as the crystal it describes. The LAMMPS structure has the same lattice vector lengths and angles, the same interatomic vectors up to one rotation, and the element masses, types and charges of each atom.",
 ["inputs"], "all structures and supercells, also with interleaved elements (POSCAR) or elements in blocks (LAMMPS), skewed right-handed cells",
 "No test writes or re-reads these files.",
 ["dynaphopy/generate_cell.py", IO], [("generate_VASP_structure / generate_LAMMPS_structure", "dynaphopy/generate_cell.py"), ("read_from_file_structure_poscar", IO)],
 ["generate_cell functions", "iofile.read_from_file_structure_poscar"])

prop("C23", "Every setting is read back as it was set, independently of the others",
 "Each calculation setting returns the value last assigned to it and assigning one setting never changes another; a dictionary of settings (as read from an input file) changes exactly the settings it names. Everything written in an input file, matrices, band paths with labels, mesh and file names, is read back with the values in the file.",
 ["inputs", "histories"], "all settings, all sequences of assignments, all input files in the documented format",
 "Tests read four fixed input files and set a handful of settings.",
 ["dynaphopy/parameters.py", A, IO], [("Parameters properties / get_data_from_dict", "dynaphopy/parameters.py"), ("read_parameters_from_input_file", IO)],
 ["Parameters", "iofile.read_parameters_from_input_file"])

prop("C24", "Renormalised force constants reproduce the renormalised frequencies",
 "The force constants built from frequencies and eigenvectors at all commensurate wave vectors have exactly those frequencies, sign included, at those wave vectors; in particular harmonic data give back the harmonic force constants. In the renormalised data there is one entry per commensurate wave vector, in order, the three acoustic modes at gamma are zero, wave vectors treated as equivalent have the same harmonic frequencies, and the selected wave vector is left as it was.",
 ["inputs"], "all structures with force constants, all force constant supercells, all (also imaginary, given as negative) frequencies",
 "Tests check that harmonic force constants are recovered for four crystals within a loose tolerance.",
 [L, I], [("get_renormalized_force_constants / get_equivalent_q_points_by_symmetry", L), ("get_commensurate_points_data", I)],
 ["phonopy_link.get_renormalized_force_constants", "Quasiparticle.get_commensurate_points_data"])

prop("C25", "Spectra, energies and temperatures share consistent physical units",
 "The integral over the positive frequencies of the power spectrum of a real mass-weighted velocity in u^1/2 A/ps is its mean kinetic energy in eV (direct spectrum by the trapezoid rule with unit step, and maximum entropy spectrum), and every algorithm applies the same unit factor to each value. For velocities drawn from a Maxwell-Boltzmann distribution the temperature reported from velocities tends to the true one; an oscillator's occupation and temperature reported for a fitted peak are those with twice its area as energy.",
 ["inputs"], "all signals, masses, temperatures and time steps for which the sampling is adequate",
 "Tests compare frequencies and stored arbitrary-looking spectra values only.",
 [PS, "dynaphopy/analysis/energy.py", "dynaphopy/analysis/fitting/__init__.py"],
 [("unit_conversion", PS), ("boltzmann_distribution", "dynaphopy/analysis/energy.py")],
 ["power spectra", "Quasiparticle.get_temperature"])

prop("C26", "Harmonic densities and bands are per unit cell and along the given path",
 "The densities of states and thermal properties obtained from force constants are those of the primitive cell multiplied by the number of primitive cells per unit cell, for the harmonic and for given force constants, projected on an atom or not. Dispersion bands sample each path segment at equally spaced wave vectors including both ends, in the given order, and the renormalised bands report for every branch the difference from the harmonic one at the same point.",
 ["inputs", "configurations"], "all structures with force constants, meshes, projections, paths and resolutions",
 "Tests compare one crystal's stored bands and thermal numbers with wide tolerances.",
 [L, I], [("obtain_phonopy_dos / obtain_phonopy_thermal_properties / obtain_phonon_dispersion_bands", L), ("get_renormalized_phonon_dispersion_bands", I)],
 ["phonopy_link functions", "Quasiparticle.get_renormalized_phonon_dispersion_bands"])

prop("C27", "The generated test trajectory is the requested harmonic motion",
 "The harmonic trajectory generated for tests gives at every time step each atom's reference position plus the sum over all commensurate wave vectors and modes above the minimum frequency of the real part of the eigenvector wave with the common initial phase, with the same velocity amplitude for all modes, the square root of three times Boltzmann's constant times temperature over the number of primitive cells. Times are multiples of the time step, and the structure is not modified.",
 ["inputs"], "all structures with force constants, supercells, temperatures, time steps and phases",
 "Tests use it as input and never check it.",
 [IO], [("generate_test_trajectory", IO)], ["iofile.generate_test_trajectory"])

prop("C28", "Displacement distributions are the histograms of all atoms of each type",
 "For every trajectory, direction (of any length) and number of bins, the distribution of each atom type is the histogram, normalised to unit area, of the component along the direction of the displacements of every atom of that type at every step, over equal bins of one range common to all types, from the smallest to the largest component. The file of distributions has one row per bin in ascending order: the centre of the bin, then the distribution of each type in the order of the types.",
 ["inputs"], "all trajectories and structures, directions, numbers of bins and atom types",
 "Tests compare two harmonic crystals with stored histograms to a wide tolerance, with one direction and number of bins.",
 ["dynaphopy/analysis/coordinates.py", I, IO],
 [("trajectory_projection", "dynaphopy/analysis/coordinates.py"), ("get_atomic_displacements / write_atomic_displacements", I)],
 ["Quasiparticle.get_atomic_displacements", "Quasiparticle.write_atomic_displacements"])

prop("C29", "Output files hold the computed data",
 "Every file of results holds the requested quantity and nothing else, whatever its size and whatever the file held before. Spectrum files have one row per frequency, in order, with the frequency, to at least four decimals, and then the value of every mode or of the one spectrum, to at least nine significant digits. The files of quasiparticle, mesh and band data hold for each wave vector, in order, its reduced components, frequencies, linewidths, shifts, multiplicity and group velocities as computed, to at least eight decimals. The files of projected velocities hold the projection on the requested atom (counted from one; others are refused) or on every phonon mode at each step.",
 ["inputs"], "all sizes and values of the data, atoms, modes and earlier contents of the files",
 "Tests write three kinds of files for one crystal and compare some of their values with wide tolerances.",
 [IO, I, L],
 [("write_curve_to_file, save_quasiparticle_data_to_file, save_mesh_data_to_yaml_file, save_bands_data_to_file", IO),
  ("write_power_spectrum_*, write_quasiparticles_data, write_mesh_data, write_renormalized_*, save_vc, save_vq", I), ("save_force_constants_to_file", L)],
 ["the files written"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
