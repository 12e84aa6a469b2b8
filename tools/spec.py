"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/spec.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, level_note, technique, level="model_checking", state=(), observe=(), claim=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=level_note, technique=technique,
                  level=level, state=state, observe=observe, claim=claim, reason=reason))


prop("C01", "Reported frequencies are the spectrum of the plane-wave Maxwell problem",
     "For every structure, k-point, parity sector, number of bands and solver option, the reported frequencies (started from random fields) are the lowest eigenfrequencies, with multiplicity and in order, of the discretised Maxwell eigenproblem curl eps^-1 curl H = omega^2 mu H on divergence-free fields of that Bloch wavevector and parity. The answer does not depend on the block size, preconditioner, workspace, eigensolver flags or algorithm chosen. At k=0 the constant solutions appear as exact zero-frequency bands.",
     ["inputs", "configurations"], "all combinations of structure, lattice, dimensionality, material class, k-point, parity sector, band count and solver option in the stated alphabet, on three builds (complex, inversion-symmetric, hermitian)",
     "The shipped tests solve a few structures with one option set and compare against stored numbers at 1e-3; they cannot cover the combinations of option, parity, dimensionality and material class.",
     ["mpb/mpb.c", "src/matrices/eigensolver.c", "src/matrices/eigensolver_davidson.c", "src/maxwell/maxwell_op.c", "src/maxwell/maxwell_pre.c", "src/maxwell/maxwell_constraints.c"],
     [("block-wise solve with deflation, special handling of k=0", "mpb/mpb.c solve_kpoint"), ("Rayleigh-quotient minimisation", "src/matrices/eigensolver.c"), ("Davidson iteration", "src/matrices/eigensolver_davidson.c"), ("Maxwell operator", "src/maxwell/maxwell_op.c maxwell_operator")],
     "Every cell of a finite product of structures, k-points, parities, band counts and options is executed on the real executables and compared with a dense eigen-decomposition of the same operator. Trusts LAPACK via scipy; the dielectric tensor is read back from the program (decided separately by C14). Grids up to 3x4x5, so the dense problem is exact.",
     "bounded exhaustive enumeration of structures x k x parity x solver options on the real executable, dense-matrix reference model")

prop("C02", "Operator, field, parity and plane-wave kernels match their definitions",
     "On every grid shape (odd, even and degenerate), lattice, k-point and material tensor field, the Maxwell, mu-inverse and group-velocity operators, the D/E/H/B field transforms, the parity and k=0 projections, the preconditioners' symmetry, the plane-wave setters and finders, and the reconstruction of the half grid in the inversion-symmetric build act on every state exactly as their plane-wave definitions say. The result does not depend on how many bands are transformed at a time, on which transforms were planned before, or on the earlier use of the same solver handle. The set of plane waves is the symmetric set for the grid.",
     ["inputs", "configurations", "histories"], "every basis vector of the state space, for every grid/lattice/k/material/batch-size cell in the alphabet; every operation sequence up to the depth on one handle",
     "Tests run a handful of power-of-two grids through a whole solve, so that an operator wrong on odd grids, on unusual batch sizes, on one tensor component or after reuse of a handle leaves no trace.",
     ["src/maxwell/maxwell.c", "src/maxwell/maxwell_op.c", "src/maxwell/maxwell_constraints.c", "src/maxwell/maxwell_pre.c"],
     [("k+G vectors and transverse basis", "src/maxwell/maxwell.c update_maxwell_data_k"), ("FFT plans cached per batch size", "src/maxwell/maxwell_op.c maxwell_compute_fft"), ("curl/eps/mu products", "src/maxwell/maxwell_op.c"), ("mirror and zero-k constraints", "src/maxwell/maxwell_constraints.c")],
     "The operators are linear, so applying them to every basis vector decides them completely for a given grid, lattice, k and material; those four are enumerated. The reference is a dense matrix built without any FFT.",
     "exhaustive enumeration of basis states and of operation histories on the real kernels against a dense operator model")

prop("C16", "Dense linear-algebra layer matches matrix algebra for every shape and slice",
     "Every operation of the band-matrix and small-square-matrix layer (products, adjoint products, slices, diagonal and trace forms, resizing, in-place and aliased uses, inversion, square roots, generalised and plain eigen-decompositions) equals its mathematical definition for every size, offset and slice it accepts, in the real and the complex build. Destination storage that the operation defines never influences the result, whatever it held before. Sources and storage outside the destination are left untouched.",
     ["inputs", "histories"], "all sizes, offsets and slice lengths up to the bound, destination storage filled with NaN or zero, and all operation sequences up to the depth on a register file",
     "No test calls this layer directly; a solve uses one shape and one slice layout of each.",
     ["src/matrices/evectmatrix.c", "src/matrices/sqmatrix.c", "src/matrices/matrices.c", "src/matrices/blasglue.c"],
     [("row-major wrappers over Fortran BLAS/LAPACK", "src/matrices/blasglue.c"), ("slices and submatrices by offset", "src/matrices/evectmatrix.c"), ("in-place resize", "src/matrices/sqmatrix.c sqmatrix_resize")],
     "Complete enumeration of shapes, offsets and aliasing patterns up to the bound on the real library, with sentinels around every buffer, against numpy. Values come from a fixed alphabet plus addressed pseudo-random entries.",
     "bounded exhaustive operation-sequence exploration of the real library against a reference register machine")
TODO = "its check is not finished yet"

prop("C03", "Results depend on the current inputs only, never on the history of the session",
     "In one session, after any sequence of set-up, solving, parity, k-point, band-count, resolution, material, field-loading and reset operations, re-initialising with fields reset gives the same frequencies, dielectric function and fields as a fresh session with the same inputs. Changing the number of bands, the grid, the block size or switching between magnetic and non-magnetic materials between initialisations is always handled. Output variables and k-point numbering restart as in a fresh session.",
     ["histories", "configurations"], "all operation sequences up to the depth bound over an alphabet of state-changing operations, compared with a fresh process",
     "Tests run each script from a fresh process in one fixed order.",
     ["mpb/mpb.c", "mpb/mpb.scm.in", "mpb/fields.c", "mpb/epsilon.c", "mpb/medium.c", "src/maxwell/maxwell.c"],
     [("re-use of old fields and workspace when sizes match", "mpb/mpb.c init_params have_old_fields"), ("current-field reset", "mpb/mpb.c curfield_reset"), ("k index reset", "mpb/mpb.c set_kpoint_index")],
     "", "", claim=False, reason=TODO)
prop("C04", "Fields obey Maxwell's relations, are normalised, and reading never disturbs",
     "For every structure, k-point and band, the loaded D, E, B and H fields are divergence-free where required and related by D = eps E, B = mu H and curl H = -i omega D (in the program's units) for the reported frequency; the energy density integrates to the unit normalisation, its component fractions sum to one, and the fractions reported for dielectric ranges and object lists are the corresponding sub-integrals. Loading, querying, integrating or exporting any field of any band in any order changes neither the eigenvectors nor the value of any other query. Asking for something that needs a field of another kind is refused, not answered with garbage.",
     ["inputs", "histories"], "all structures/k/bands of the alphabet, all sequences of field operations up to the depth bound",
     "Tests check a few energies at a few points of one structure; relations between fields at every grid point, and order of queries, are not sampled.",
     ["mpb/fields.c", "src/maxwell/maxwell_op.c", "mpb/field-smob.c"],
     [("field loading and scaling by 1/omega and 1/sqrt(V)", "mpb/fields.c get_dfield, get_efield_from_dfield"), ("energy density", "mpb/fields.c compute_field_energy_internal"), ("field type guard", "mpb/fields.c curfield_type")],
     "Every (structure, build, k, band) cell of the alphabet is run and every field value at every grid point, energy, fraction, divergence and integral compared with a numpy model derived from B alone; every operation sequence of length 3 over ~30 field operations is walked on live sessions, each step predicted by a simulator of the documented state machine; every query is tried in every kind of field state. Bounds: grids up to 3x4x5, 4 bands, 3-4 k-points.",
     "exhaustive operation-sequence exploration (de Bruijn words) of the real executable against a reference state machine, plus exhaustive input cells")
prop("C05", "Group velocities equal the derivative of the bands",
     "For every structure (magnetic or not), k-point, band, direction and solver option, each group-velocity query returns the derivative of the band frequency along the requested direction, the list and single-band forms agree, the cartesian and reciprocal forms are related by the lattice, and the queries leave the eigenvectors unchanged. Number of bands, block size and previously loaded fields do not matter.",
     ["inputs", "histories"], "all structures x k x bands x directions x block sizes x query orders of the alphabet",
     "Tests compare one 2d dielectric run with stored values.",
     ["mpb/mpb.c", "src/maxwell/maxwell_op.c", "mpb/mpb.scm.in"],
     [("Feynman-Hellman expression", "mpb/mpb.c compute_group_velocity_component"), ("u-cross operator", "src/maxwell/maxwell_op.c maxwell_ucross_op")],
     "Every (structure, build, k, band, direction, block size, solver flag) cell is executed; each reported velocity is compared with the exact derivative of the discretised problem's eigenvalue (Feynman-Hellman on the dense operator; for degenerate bands the expectation in the very state the program holds), and all query forms and orders are compared with each other. Bounds: grids up to 3x4x5, 4 bands.",
     "bounded exhaustive enumeration of structures x k x band x direction x option and of query orders on the real executable, dense-matrix reference model")
prop("C06", "Parity sectors partition the spectrum and parities are reported exactly",
     "For a mirror-symmetric structure and compatible k, the solutions of a parity-restricted run have that parity (reported as plus or minus one) and the union of the sectors' frequencies is the unrestricted spectrum; TE and TM are the z-even and z-odd sectors in two dimensions. Parities reported for an unrestricted run are the expectation values of the mirror operation in the state, lying between -1 and 1. Changing parity between runs in one session gives the same results as a fresh run.",
     ["inputs", "histories"], "all mirror-symmetric structures, k, band counts of the alphabet, all orders of parity runs",
     "Tests run TE/TM on a handful of 2d structures.",
     ["src/maxwell/maxwell_constraints.c", "mpb/mpb.c", "mpb/mpb.scm.in", "src/maxwell/maxwell.c"],
     [("mirror projection constraints", "src/maxwell/maxwell_constraints.c"), ("run-te/run-tm/... wrappers", "mpb/mpb.scm.in")],
     "", "", claim=False, reason=TODO)
prop("C07", "Equivalent k-points and equivalent descriptions give the same bands",
     "Shifting k by reciprocal lattice vectors, negating k for a reciprocal medium, rotating or reflecting the structure together with k, choosing another basis for the same lattice, scaling all lengths, shifting the structure's origin by whole grid steps, and enlarging the cell to a supercell at folded k all leave the set of frequencies related as physics requires. first-brillouin-zone returns an equivalent k that is no longer than every other equivalent point in its neighbourhood, and lattice/reciprocal/cartesian conversions are mutually inverse.",
     ["inputs"], "all k-points and transformations of the alphabet on all structures of the alphabet",
     "Tests use only one description of each structure.",
     ["src/maxwell/maxwell.c", "mpb/mpb.c", "mpb/epsilon.c", "mpb/mpb.scm.in"],
     [("k + G construction", "src/maxwell/maxwell.c update_maxwell_data_k"), ("first Brillouin zone search", "mpb/mpb.scm.in first-brillouin-zone")],
     "", "", claim=False, reason=TODO)
prop("C08", "Point queries and integrals agree with the stored grid everywhere in space",
     "At every grid point a point query (dielectric function, inverse tensor, field, Bloch envelope, energy) returns the stored value, between grid points the multilinear interpolant of the surrounding stored values, and outside the cell the periodic continuation, multiplied by the Bloch phase of the displacement for full fields. Integrals of user functions over a field or over energy equal the grid sum of the function evaluated with exactly those point values, in both builds.",
     ["inputs"], "all grid shapes, all points on a lattice of positions inside, between and outside, all field kinds",
     "Tests query one or two points.",
     ["mpb/fields.c", "mpb/field-smob.c"],
     [("linear interpolation with periodic wrap", "mpb/fields.c f_interp_val"), ("Bloch phase", "mpb/fields.c get_bloch_field_point, get_field_point"), ("half-grid doubling in integrals", "mpb/fields.c compute_field_integral")],
     "", "", claim=False, reason=TODO)
prop("C09", "The inversion-symmetric build gives the same answers as the general build",
     "For every inversion-symmetric structure, the inversion-symmetric executable returns the same frequencies, group velocities, parities, energies, integrals, point values, dielectric statistics, overlaps and exported files as the general executable, up to the phase of each eigenstate, on every grid shape including odd and degenerate ones. Builds for hermitian tensors do likewise for real tensors.",
     ["configurations", "inputs"], "all inversion-symmetric structures, grid shapes, k, queries of the alphabet",
     "Tests run the executable of one configuration only.",
     ["mpb/fields.c", "mpb/material_grid.c", "mpb/transform.c", "src/maxwell/maxwell_op.c", "src/matrixio/fieldio.c"],
     [("half-grid storage and reconstruction", "src/maxwell/maxwell_op.c maxwell_vectorfield_otherhalf"), ("double counting in sums", "mpb/fields.c")],
     "", "", claim=False, reason=TODO)
prop("C10", "Parallel runs equal serial runs for every number of processes",
     "For every number of processes (up to and beyond the grid extent), the distributed executable gives the same frequencies, velocities, energies, integrals, point values, overlaps and output files (whose first two dimensions are exchanged, as documented) as the serial one or refuses the grid (one point along x or y, as documented); every process agrees on collective results, and no process hangs or dies. Splitting the processes into groups or the k-points into chunks changes nothing in the assembled result.",
     ["configurations", "schedules"], "all process counts up to the bound x all structures and queries of the alphabet; all partitions",
     "Tests are serial.",
     ["src/util/mpi_utils.c", "src/maxwell/maxwell_op.c", "src/maxwell/maxwell.c", "mpb/fields.c", "mpb/field-smob.c", "src/matrixio/fieldio.c", "src/matrixio/matrixio.c"],
     [("slab decomposition and transposed FFT output", "src/maxwell/maxwell.c create_maxwell_data"), ("reductions", "src/util/mpiglue.h"), ("process groups", "src/util/mpi_utils.c divide_parallel_processes")],
     "", "", claim=False, reason=TODO)
prop("C11", "The run driver covers every k and band function exactly once; gaps are true",
     "For every list of k-points, number of chunks and chunk index, the chunks partition the list in order with correct numbering; every band function is called exactly once per k-point (thunks) or per k-point and band, in order, with the right state in force; the recorded frequencies, band ranges and gap list are exactly those of the frequencies solved, and retrieve-gap agrees with them. The parallel splitting script produces each chunk's output exactly once, in order, whatever the completion order of the chunks, and fails if a chunk fails.",
     ["inputs", "schedules", "fault_sequences"], "all lists, chunk counts and indices up to the bound; all frequency patterns up to the bound; all completion orders of the chunks",
     "Tests run one list in one chunk, and never the script.",
     ["mpb/mpb.scm.in", "mpb/mpb-split-preinstall.in", "mpb/mpb.c"],
     [("list-split", "mpb/mpb.scm.in list-split"), ("band ranges and gaps", "mpb/mpb.scm.in update-band-range-data, output-gaps"), ("parallel chunk script", "mpb/mpb-split-preinstall.in")],
     "", "", claim=False, reason=TODO)
prop("C12", "Eigenvector objects copy, overlap, combine and persist faithfully",
     "Copying bands out, putting any range of them back, scaling, overlapping and multiplying eigenvector objects, and saving and loading them through files follow the linear algebra of the energy inner product for every band range, in every order of operations, and never alter bands outside the range. A loaded file reproduces the saved state exactly; files of the wrong shape are refused.",
     ["histories", "inputs"], "all operation sequences up to the depth bound over eigenvector objects and band ranges",
     "Tests do not use eigenvector objects beyond one overlap.",
     ["mpb/matrix-smob.c", "src/matrixio/evectmatrixio.c", "mpb/mpb.c"],
     [("slice copies", "mpb/matrix-smob.c get_eigenvectors, set_eigenvectors"), ("overlaps with mu", "mpb/matrix-smob.c dot_eigenvectors"), ("eigenvector files", "src/matrixio/evectmatrixio.c")],
     "", "", claim=False, reason=TODO)
prop("C13", "Field objects behave as independent values",
     "Creating, copying, setting, mapping, integrating, loading and storing field objects of every kind follows pointwise semantics at every grid point: an object keeps its values when the current field or any other object changes, mapping evaluates the user function on exactly the corresponding point values, a field loaded back is the field stored, and operations on objects that do not conform are refused.",
     ["histories"], "all operation sequences up to the depth bound over two objects of each kind and the current field",
     "Tests do not use field objects.",
     ["mpb/field-smob.c", "mpb/field-smob.h", "mpb/fields.c"],
     [("field smobs and their update from the current field", "mpb/field-smob.c"), ("mapping and integration loops", "mpb/field-smob.c field_map, integrate_fields")],
     "", "", claim=False, reason=TODO)
prop("C14", "The effective dielectric tensor is the right average of the structure",
     "For every structure, the tensor at each grid point is: the material's own tensor where the pixel is homogeneous; for a single interface crossing the pixel (the face of its object nearest to the pixel's centre) the tensor that averages the inverse along the normal and the direct tensor in the plane, with the fill fraction of the pixel to the tolerance asked for (at most 1%); always hermitian positive definite for positive materials, between the bounds set by the materials present, symmetric under the symmetries of the structure, the inverse of the reported dielectric function, and independent of object order where objects do not overlap. Later objects override earlier ones, the periodic copies next to the cell and the default material fill the rest.",
     ["inputs"], "all positions, orientations, materials and grids of the alphabet",
     "Tests check a few band structures at 1e-3; a wrong tensor component at an interface shifts bands by less.",
     ["src/maxwell/maxwell_eps.c", "mpb/epsilon.c", "mpb/medium.c", "src/util/sphere-quad.c"],
     [("interface averaging", "src/maxwell/maxwell_eps.c set_maxwell_dielectric"), ("analytic fill fraction for two materials", "mpb/epsilon.c mean_epsilon_func"), ("object lookup with overrides", "mpb/epsilon.c material_of_point_in_tree_inobject users")],
     "", "", claim=False, reason=TODO)
prop("C15", "Material grids interpolate, combine and differentiate correctly",
     "A material grid contributes at every point of its object (or, as default material, of the cell) the multilinear interpolation of its values, which lie at the centres of its cells with a mirror continuation at the faces, mapped linearly onto its epsilon and mu ranges; compatible grids of the same kind that lie directly under one another are combined by minimum, product or mean. Saving and loading keeps the values, loading a file of another shape or as a supercell resamples it, and later initialisations use the values in force. With mesh-size 1 the reported gradients of every frequency with respect to every grid value, and the difference quotient, equal the actual derivative in every build and process count, and the query leaves the grid as it was.",
     ["inputs"], "all grid sizes, kinds, points and grid values of the alphabet",
     "The shipped tests have no material grids.",
     ["mpb/material_grid.c", "mpb/material_grid_opt.c", "mpb/epsilon.c"],
     [("interpolation and its adjoint", "mpb/material_grid.c linear_interpolate, add_interpolate_weights"), ("gradient assembly", "mpb/material_grid.c material_grids_addgradient"), ("file input and output", "mpb/material_grid.c load_material_grid, save_material_grid")],
     "", "", claim=False, reason=TODO)
prop("C17", "find-k returns the wavevectors of the frequency and restores the session",
     "For every band range, direction, starting guess, bracket and tolerance for which the band reaches the frequency inside the bracket, the k returned for each band in the requested range lies in the bracket and that band has the target frequency there; band functions are then called once per band with that state in force, in the requested order. The number of bands and the k-point list are afterwards as before.",
     ["inputs", "histories"], "all band ranges, directions, guesses and brackets of the alphabet on structures with known dispersion",
     "Tests call it for one structure.",
     ["mpb/mpb.scm.in"],
     [("Newton root finding with memoised bands", "mpb/mpb.scm.in find-k")],
     "", "", claim=False, reason=TODO)
prop("C18", "mpb-data transforms data sets exactly as its options say",
     "For every scalar, complex and vector file the program writes, and every combination of rectification, direction, resolution, periods, pixels, phase, component, name and transposition options, mpb-data writes the periodic multilinear resampling of the input at the positions the options define: cell centre on cell centre, Bloch phases between periods for complex fields, the given overall phase, vector components in the axes of the output cell. Data go to a new data set of the input file, to another data set or to the file of -o as documented; the other data sets of the input are preserved, an earlier result is replaced, and a request that cannot be met is refused with an error exit.",
     ["inputs", "configurations"], "all option combinations up to the bound on a set of small files",
     "No test runs mpb-data.",
     ["utils/mpb-data.c", "src/matrixio/matrixio.c"],
     [("output coordinate map and interpolation", "utils/mpb-data.c map_data"), ("lattice rectification", "utils/mpb-data.c make_cell")],
     "", "", claim=False, reason=TODO)
prop("C19", "No operation sequence corrupts memory or reads undefined storage",
     "No sequence of the documented operations, with valid or invalid arguments, in any order, on any structure and build, makes the program read or write outside its objects or use them after release; an invalid request is reported and either ignored or ends the program cleanly. This includes many bands, magnetic materials, zero bands, requests before initialisation and repeated initialisation.",
     ["histories", "inputs"], "all operation sequences up to the depth bound over the whole operation alphabet, including invalid arguments, on instrumented builds",
     "Tests are not instrumented and use valid sequences only.",
     ["mpb/mpb.c", "mpb/fields.c", "mpb/field-smob.c", "mpb/matrix-smob.c", "mpb/material_grid.c", "mpb/transform.c", "mpb/epsilon_file.c"],
     [("guards on the current-field type and band range", "mpb/fields.c"), ("buffer sizes tied to the number of bands per transform", "src/maxwell/maxwell.h NUM_FFT_BANDS users")],
     "", "", claim=False, reason=TODO)
prop("C20", "Output files record the field in force, and I/O faults are reported",
     "Every exported file has the name, data sets, attributes and values that the current field, band, k-point, parity and component determine; nothing else is overwritten and outputs of different states never collide. If a file cannot be created or written, the run stops with a non-zero exit status rather than continuing as if it had been saved.",
     ["inputs", "fault_sequences"], "all field kinds x components x parities x prefixes, and a fault at each file operation",
     "Tests do not read the files back.",
     ["mpb/fields.c", "src/matrixio/fieldio.c", "src/matrixio/matrixio.c"],
     [("file naming", "mpb/fields.c output_field_to_file"), ("data set writing", "src/matrixio/matrixio.c"), ("error checks", "src/matrixio/matrixio.c CHECK on HDF5 results")],
     "", "", claim=False, reason=TODO)
prop("C21", "The targeted solver returns the states nearest the target",
     "For every structure without magnetic materials, k-point and target frequency away from midpoints between states, the targeted solver returns the num-bands eigenfrequencies of the same Maxwell problem nearest the target (at k = 0 without the constant static states), or fails loudly; the states are orthonormal eigenstates and their fields, velocities and energies satisfy the same relations as those of the ordinary solver. Targets only take effect at init-params and leave no trace in later ordinary solves. With allow-negative-epsilon the same holds for the squared frequencies, which are returned instead.",
     ["inputs", "configurations"], "all targets in the gaps and bands of the alphabet x structures x k x solver options",
     "Tests use one target on one structure.",
     ["mpb/mpb.c", "src/maxwell/maxwell_op.c", "src/maxwell/maxwell_pre.c", "src/matrices/eigensolver_utils.c"],
     [("squared shifted operator", "src/maxwell/maxwell_op.c maxwell_target_operator"), ("Rayleigh-Ritz in the solution space", "src/matrices/eigensolver_utils.c")],
     "", "", claim=False, reason=TODO)
prop("C22", "Symmetry overlaps and dominant plane waves are those of the field",
     "For every rotation W and translation w with determinant plus or minus one, compute-symmetry, compute-symmetries and transformed-overlap (of the current D or B field) return the inner product over the cell of the state with its transformed copy, Bloch phases and the sign of pseudovectors included. So for operations of the structure and of k the overlaps of a non-degenerate state are unimodular and multiplicative, the characters of a degenerate set form a representation, the identity gives one and lattice translations give the Bloch phase. The reported dominant plane wave is the k+G of the state's largest Fourier coefficient, in every build and on every process. Other fields, maps, bands and builds are refused with a message.",
     ["inputs"], "all operations of the point groups in the alphabet x structures x k x bands",
     "Tests check one structure's overlaps against stored numbers.",
     ["mpb/transform.c", "src/maxwell/maxwell.c", "mpb/mpb.c"],
     [("transformed overlap on the grid", "mpb/transform.c transformed_overlap"), ("dominant plane wave", "src/maxwell/maxwell.c maxwell_dominant_planewave")],
     "", "", claim=False, reason=TODO)
prop("C23", "Dielectric input files are used exactly where and how they are specified",
     "When epsilon-input-file or mu-input-file names a file, the dielectric function (permeability) at every point outside the geometric objects is the multilinear interpolation of the file's first data set, scalar of rank one to three on any grid, whose values lie at the centres of the file's cells with a mirror continuation at the cell's faces; geometric objects (other than holes of `nothing') override it, an axis the lattice does not have uses the first plane, and pixels in which it varies are averaged over the mesh. Naming no file switches it off again. A file that is missing, unreadable, has no data set, the wrong rank, no points or values that are not positive is refused with an error exit.",
     ["inputs", "fault_sequences"], "all file grids, tensor layouts and simulation grids of the alphabet",
     "No test uses an input file.",
     ["mpb/epsilon_file.c", "mpb/epsilon.c", "src/matrixio/matrixio.c"],
     [("file reading and interpolation", "mpb/epsilon_file.c")],
     "", "", claim=False, reason=TODO)


CLAIMS = {
    'C15': ('every arrangement of grids of the alphabet is run through the real program; epsilon, gradients and files are compared with an independent interpolation and with finite differences of dense spectra',
            'exhaustive enumeration of grid arrangements, kinds, builds and files on the real code against a reference interpolation'),
    'C21': ('every target, structure, option and history of the alphabet is run on the real program; loud refusals of the solver are accepted, other starting fields are tried for Davidson',
            'exhaustive enumeration of targets, solver options and histories on the real code against a dense eigen-decomposition'),
    'C18': ('every option combination of the alphabet is run through the real mpb-data on files of the real program (and hand-written ones) and compared with an independent resampling',
            'exhaustive enumeration of option combinations and file kinds on the real tool against a reference resampling'),
    'C23': ('every file kind, grid, dielectric function, fault and history of the alphabet is run through the real program and compared with an independent interpolation',
            'exhaustive enumeration of input files, simulation grids and histories on the real code against a reference interpolation'),
    'C22': ('Every isometry of the lattice (and maps that are none) with five translations is applied to every band of every structure and compared with an independent sum over the grid of the solved fields; group laws are checked on the subgroups that the discretisation respects exactly (to 1e-7); dominant plane waves against the Fourier transform of the field in five builds.',
            'exhaustive enumeration of operations x states on the real executables against an independent overlap, and of all products in each little group'),
    'C17': ('Reference bands on a dense lattice of k along the line tell where each band passes the frequency; the independent frequency at each returned k is computed in the same session; band functions log the state they see.',
            'exhaustive enumeration of find-k calls (inputs and session histories) on the real executable against independently computed bands'),
    'C14': ('An independent geometric model classifies every pixel of every structure of the alphabet (homogeneous, one interface, more) and predicts its tensor; the stored epsilon tensors come from the exported file and the mu tensors from the B-to-H map of random states.',
            'exhaustive enumeration of structures (ordered object lists, face orientations and offsets, material functions) with the real executable, every pixel compared to an independent geometric model'),
    'C07': ('Transformation pairs are generated from an alphabet of symmetries, shifts, scalings, basis changes and k-point equivalences; each is run through the real executable; those that the truncated plane-wave basis does not respect are judged to grid convergence of smooth structures.',
            'explicit enumeration of transformation pairs on the real executables (stateless model checking of input histories against an exact symmetry oracle)'),
    'C03': ('All triples (18 input sets, 16 activities, next inputs) are walked on live sessions in two builds (the inversion build a third of them in the quick tier) and each set of results (fields, velocities, energies, maps, overlaps; or the tables and numbering of a run) is compared with a fresh session given the same inputs. Fields are compared up to the phase and degenerate basis.',
            'exhaustive operation-sequence exploration (Eulerian walk over all input/activity/input triples) on live sessions of the real executable, differential against fresh sessions'),
    'C10': ("A battery of every observable (frequencies, velocities, parities, fields at every point and between, integrals, energies, maps, overlaps, printed statistics, files) is compared between the serial and the distributed executables for every structure of the alphabet and every grid shape up to 4x4x4 (36 points) in both builds with 2, 3, 4, 5 and 7 processes; all pairs of process counts for saved states; all group divisions of up to 6 processes and all successive pairs. The interleaving of messages is the library's, not controlled.",
            'bounded exhaustive enumeration of structures x grids x process counts x group divisions on the real executables, differential against the serial executable'),
    'C11': ('All lists, chunks and indices; all frequency patterns; words of band functions on real runs; all completion orders and failing subsets of the chunk script',
            'exhaustive enumeration of chunkings, frequency patterns, band-function words and completion schedules against a reference model of the run driver'),
    'C09': ('The same battery of observations in two builds over all structures, sectors and grid shapes up to the bound',
            'bounded exhaustive differential exploration of the two builds (every grid shape, sector, k, band and query within the bound)'),
    'C12': ("Every ordered pair of about 45 operations over the session's eigenvectors and two objects, with every band range of 3 to 5 bands (and ranges crossing the 20-band batches for 22 to 24 bands), on 15 structure/build/block-size cells; the complete raw contents of all registers are compared bit by bit after every step, overlaps with the (mu-weighted) Gram matrix; files are read back by a second process on every structure and build; about 75 invalid ranges, objects and files must each be refused.",
            'exhaustive operation-sequence exploration (de Bruijn words) of the real executable against a reference register machine'),
    'C13': ('A register machine of six field objects and the current field: every ordered pair of about 55 operations is walked on live sessions of seven structure/build cells, the complete contents and every grid-point query of every register compared after every step; 12 stored field kinds are loaded back after 14 disturbances each and must answer every query as before; about 190 invalid operations must each end the run with an error.',
            'exhaustive operation-sequence exploration (de Bruijn words) of the real executable against a reference register machine'),
    'C20': ('Every output routine on every structure and build with every file of the run compared in full (names, data sets, attributes, values), every grid shape with arbitrary values, every ordered pair of output operations in its own directory, and every single or persistent failure of every file operation (write, open, truncate, rename, close...) of eleven output routines injected on the real executable. Faults are injected at the system-call level below HDF5.',
            'exhaustive fault injection at every file operation plus de Bruijn operation sequences and exhaustive input cells on the real executable'),
    'C08': ('Every grid shape up to 4x4x4 (thorough 6x6x6) with arbitrary stored values, every query interface at every position class, every integral with each user-function call recorded; plus all solved field kinds of 19 structures. A one-point grid in the inversion build is refused by FFTW and excluded.',
            'exhaustive exploration of grid shapes x builds x query interfaces x position lattice on the real executable against an independent interpolation model'),
    "C06": ("Every (structure, build, sector, k) cell is executed and compared with the dense spectrum of the mirror-projected operator and, point by point, with the mirror image of each field; every ordered pair (triple) of run functions, aliases and set-parity calls is walked in one session. On grids with an even axis the mirror of that axis does not commute with the truncated operator, so there only names, reported parities and the union of sectors (to 3%) are judged.",
            "exhaustive operation-sequence exploration (de Bruijn words over parity actions) plus exhaustive input cells on the real executable, dense-matrix reference model"),
}
for _p in P:
    if _p["id"] in CLAIMS:
        _p["note"], _p["technique"] = CLAIMS[_p["id"]]
        _p["claim"] = True


def dump():
    with open(V + "/properties.jsonl", "w") as f:
        for p in sorted(P, key=lambda x: x["id"]):
            assert len(p["title"]) <= 80, (len(p["title"]), p["title"])
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                                "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                            "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": [], "not_applicable": []}
    for p in sorted(P, key=lambda x: x["id"]):
        if p["claim"]:
            m["checks"].append({"property": p["id"], "quick_cmd": "python3-vt checks/%s.py" % p["id"],
                                "thorough_cmd": "VERIF_TIER=thorough python3-vt checks/%s.py" % p["id"],
                                "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
        else:
            m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)


if __name__ == "__main__":
    dump()
