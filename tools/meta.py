"""The property list: one entry per property, the source of properties.jsonl and MANIFEST.json."""

S = "surface_potential_analysis/"
LOCKSTEP = "explicit-state model checking: exhaustive lockstep exploration of the real code against a reference model"
NOTE = (
    "Every state of a bounded space is enumerated; each transition runs the real function and is compared "
    "with a reference model written from the definitions. "
)

NOT_APPLICABLE: list[tuple[str, str]] = []

PROPS = [
    {
        "id": "C01",
        "title": "Changing basis gives exactly the coordinates the two bases describe",
        "statement": """Converting a vector from one basis to another of the same fundamental size returns the
        inner product of the described vector with every described state of the target basis: for fundamental,
        truncated, momentum, evenly spaced (any step and offset), explicitly listed and product bases, along any
        axis of an array of any dimension, real or complex. Deriving the fundamental, momentum, n-point or explicit
        form of a basis keeps its sizes, its lengths and the states it describes. Inputs are not written to.""",
        "over": ["inputs", "configurations"],
        "quantifier": """all pairs of basis descriptions of every kind up to the stated size (and all their products),
        every array axis, every vector (decided on a spanning set)""",
        "why": """The existing tests convert a few hand-picked sizes and one or two kinds of basis; off-by-one errors in
        even/odd truncation, negative offsets, axis handling and storage reinterpretation appear only for particular
        combinations of kind, size, offset, axis and data type.""",
        "files": [S + "basis/basis_like.py", S + "basis/basis.py", S + "basis/evenly_spaced_basis.py",
                  S + "basis/explicit_basis.py", S + "basis/stacked_basis.py", S + "basis/conversion.py",
                  S + "stacked_basis/conversion.py", S + "util/interpolation.py"],
        "mechanism": [("vector conversion between bases", S + "basis/basis_like.py"),
                      ("padding and truncating of frequency points", S + "util/interpolation.py"),
                      ("sampling with step and offset", S + "basis/evenly_spaced_basis.py"),
                      ("axis-by-axis conversion of product bases", S + "basis/stacked_basis.py")],
        "technique": LOCKSTEP,
        "level_note": NOTE + """All pairs of axis bases with fundamental size up to 6 (quick) or 9 (thorough), products of
        two and three axes, nested products; each pair decided on a spanning set of vectors.""",
    },
    {
        "id": "C02",
        "title": "Any history of basis changes equals the projections it passes through",
        "statement": """After any sequence of basis changes, a state, list of states, dual state, operator or list of
        operators describes the original object projected onto each basis visited, in order, and nothing else.
        In particular changes among complete bases lose nothing: round trips return the original coefficients, norms
        are kept, and the route taken does not matter; objects made earlier in the history keep their values.""",
        "over": ["histories", "inputs"],
        "quantifier": """all sequences of conversions up to the depth bound over finite alphabets of bases, from every
        start basis, for real and complex starting data""",
        "why": """Tests check single conversions and one round trip; loss of information, aliasing of storage and
        dependence on the route need sequences of conversions.""",
        "files": [S + "basis/basis_like.py", S + "state_vector/conversion.py", S + "operator/conversion.py",
                  S + "basis/stacked_basis.py"],
        "mechanism": [("conversion of states and lists of states", S + "state_vector/conversion.py"),
                      ("conversion of operators and lists of operators", S + "operator/conversion.py")],
        "state": [("current basis and coefficients", "the object being carried through the history",
                   "return value of each conversion")],
        "technique": "explicit-state model checking: breadth-first search over conversion histories, replayed step by step on the real code",
        "level_note": NOTE + """Breadth-first search with deduplicated states up to depth 4-8 over alphabets of 5-10 bases,
        plus all undeduplicated sequences of length 3-4.""",
    },
    {
        "id": "C03",
        "title": "Every kind of object transforms covariantly, each leg with its own basis",
        "statement": """Changing the basis of states, dual states, operators (dense, diagonal, lists), wavepackets with and
        without eigenvalues, probabilities, potentials and overlaps transforms every leg with its own basis (kets with the
        transfer matrix, bras with its conjugate) and leaves the other legs alone; scalars formed before and after a change
        among complete bases agree. The position and momentum forms keep the lattice and the data they describe. Sampling a
        list on fewer points keeps the chosen members; interpolating a state onto a finer grid along chosen axes gives the
        same band-limited function.""",
        "over": ["inputs", "configurations"],
        "quantifier": """all pairs of start and target descriptions of each leg up to the size bound, all kinds of object,
        all axis subsets and orders, all data (spanning set)""",
        "why": """Conjugation, transposition, axis and scale mistakes cancel for real data, equal bases, square grids or when
        all axes are converted, which is what the samples in the tests do.""",
        "files": [S + "basis/basis_like.py", S + "state_vector/conversion.py", S + "potential/conversion.py",
                  S + "overlap/conversion.py", S + "operator/conversion.py", S + "wavepacket/conversion.py",
                  S + "probability_vector/conversion.py"],
        "mechanism": [("state and dual conversion", S + "state_vector/conversion.py"),
                      ("operator conversion", S + "operator/conversion.py"),
                      ("wavepacket conversion", S + "wavepacket/conversion.py"),
                      ("overlap conversion", S + "overlap/conversion.py")],
        "technique": LOCKSTEP,
        "level_note": NOTE + """All pairs of axis descriptions up to size 4 (8) on each leg, all product descriptions in one
        to three dimensions, every axis subset and order.""",
    },
    {
        "id": "C04",
        "title": "Resampling a periodic function in Fourier space keeps the function",
        "statement": """Interpolating points along any choice and order of axes evaluates the same trigonometric
        polynomial on the new grid: every mode that both grids hold is kept with its amplitude, every other is dropped,
        other axes are untouched, real data stay real and mirror-symmetric data stay symmetric. Padding or truncating
        frequency points keeps each value at its own frequency. Spline interpolation reproduces cubics, passes
        through the data and works along any axis.""",
        "over": ["inputs", "configurations"],
        "quantifier": """all pairs and chains of lengths up to the bound, all axis subsets and orders, all modes""",
        "why": """Tests pad a few lengths along one axis; errors appear for particular parities, shrinking chains,
        axis orders and default axes.""",
        "files": [S + "util/interpolation.py"],
        "mechanism": [("frequency padding", S + "util/interpolation.py"),
                      ("spline interpolation", S + "util/interpolation.py")],
        "technique": LOCKSTEP,
        "level_note": NOTE + """Padding chains to closure for lengths up to 11 (18); interpolation of every mode for all
        pairs of lengths, arrays of up to 3 (4) dimensions with every axis subset and order.""",
    },
    {
        "id": "C05",
        "title": "Grid indices of every kind are one-to-one and equivalent modulo the grid",
        "statement": """Flat and stacked indices are inverse bijections in row-major order with wrapping and clipping as
        asked; the position and frequency points of a basis enumerate its grid in that order; wrapping an index around
        any origin returns the equivalent index in the window centred on that origin, only along the axes asked for;
        cuts and slices through data return exactly the addressed points; periodic midpoints of two indices are the
        middle of the shorter way round.""",
        "over": ["inputs", "configurations"],
        "quantifier": """all grid shapes up to the bound, all indices in and around the grid, all origins and axis subsets""",
        "why": """Tests look at a few indices on a few shapes; errors hide in even/odd lengths, length-one axes,
        non-square shapes and indices outside the cell.""",
        "files": [S + "basis/util.py", S + "stacked_basis/util.py", S + "util/util.py"],
        "mechanism": [("index conversions and points", S + "basis/util.py"),
                      ("wrapping and mirrored indices", S + "stacked_basis/util.py"),
                      ("cuts through data", S + "util/util.py")],
        "technique": LOCKSTEP,
        "level_note": NOTE + """All shapes up to 9, 5x5 and 4x4x4 (20, 9x9, 6x6x6); wrap chains to closure.""",
    },
    {
        "id": "C06",
        "title": "Positions, reciprocal vectors, distances and projections agree with the lattice",
        "statement": """For every lattice (skewed, left-handed, negative or not orthogonal): lattice and reciprocal vectors are
        dual, grid points in position and momentum are the stated fractions of them, volumes are theirs, projections onto
        any ordered set of axes are coordinates in the orthonormal frame they span, wrapping a point returns the equivalent
        point nearest the origin in lattice coordinates, path lengths add up the step lengths, and basis constructors
        give the requested shape and lattice.""",
        "over": ["inputs", "configurations"],
        "quantifier": """all lattices of the family, all grid shapes, points, ordered axis subsets and paths up to the bounds""",
        "why": """Orthogonal and square examples hide transposed matrices, swapped axes and wrong normalisation.""",
        "files": [S + "basis/util.py", S + "stacked_basis/util.py", S + "stacked_basis/build.py",
                  S + "stacked_basis/conversion.py"],
        "mechanism": [("lattice vectors and points", S + "basis/util.py"),
                      ("projection, wrapping, path lengths", S + "stacked_basis/util.py"),
                      ("basis constructors", S + "stacked_basis/build.py")],
        "technique": LOCKSTEP,
        "level_note": NOTE + """Every lattice of a fixed family, all grids up to 6, 4x4 and several in 3 dimensions; every
        path of 3 (4) points.""",
    },
    {
        "id": "C07",
        "title": "Brillouin zone folding moves by Bragg vectors and ends in the first zone",
        "statement": """For every lattice in one to three dimensions, folding a momentum index subtracts the Bragg vector of
        the closest Bragg plane lying between it and the origin (any of them when equally close) and leaves a point of the
        first zone alone; repeated folding terminates at an equivalent index to which no neighbouring Bragg point is closer
        than the origin. Scalars and arrays of any shape give the same result, and the Bragg points listed are those of the
        reciprocal lattice of the grid.""",
        "over": ["inputs", "histories"],
        "quantifier": """all lattices of the family, all grid shapes up to the bound, all indices in a box of several zones,
        all numbers of folds until the fixed point""",
        "why": """The test folds a few points of one or two lattices; the choice of plane, ties, non-orthogonal lattices and
        points several zones away need a sweep of all of them.""",
        "files": [S + "stacked_basis/brillouin_zone.py"],
        "mechanism": [("Bragg points and folding", S + "stacked_basis/brillouin_zone.py")],
        "state": [("momentum index", "the index being folded", "return value of each fold")],
        "technique": "explicit-state model checking: reachability over the folding relation, each transition run on the real code",
        "level_note": NOTE + """Boxes of 4, 2 and 1 zones in 1, 2 and 3 dimensions, folded to closure.""",
    },
    {
        "id": "C08",
        "title": "Operator arithmetic in every representation is matrix arithmetic",
        "statement": """Any sequence of sums, differences, products, scalings, commutators, functions and diagonal parts of
        operators equals the same expression of matrices, whichever route the operands came from (dense, diagonal, selected
        from a list, a function of another). Operations between lists, diagonal lists and operators held in different bases
        first express the second in the basis of the first. Selecting, collecting, flattening, summing and averaging (with
        or without weights) address the right members and describe them with the right basis. Displacement operators hold
        the periodic displacements of the grid. Operands are never changed.""",
        "over": ["histories", "inputs"],
        "quantifier": """all operation sequences up to the depth bound over a pool of operands; all pairs of leg descriptions;
        all axis subsets and indices""",
        "why": """Results of one operation feed another; shape, storage and aliasing mistakes appear only in the second
        step, and conversions inside products only when the sizes differ.""",
        "files": [S + "operator/operator.py", S + "operator/operations.py", S + "operator/operator_list.py",
                  S + "operator/build.py", S + "operator/conversion.py"],
        "mechanism": [("arithmetic", S + "operator/operator.py"), ("lists and commutators", S + "operator/operations.py"),
                      ("selection and collection", S + "operator/operator_list.py"),
                      ("displacement operators", S + "operator/build.py")],
        "state": [("register", "the operator built so far", "return value of each operation")],
        "technique": "explicit-state model checking: breadth-first search over expression histories, replayed step by step on the real code",
        "level_note": NOTE + """Histories of three (four) operations from a pool of five operands and nine kinds of
        operation, in dimension 1 to 6; all basis pairs of size 2-3 (1-4) for list products.""",
    },
    {
        "id": "C09",
        "title": "Spectra, expectation values and functions of operators agree with the operator",
        "statement": """Eigenstates of a Hermitian operator are orthonormal solutions of the eigenvalue equation in increasing
        order of energy, and exactly the requested range of them; a general operator is rebuilt from its eigenstates;
        functions and exponentials of an operator are those of its matrix; expectation values and matrix elements do not
        depend on which complete bases the operator and the state are held in; in the basis of its own eigenstates a
        Hamiltonian is the diagonal of its energies, after any history of moves between eigenbases.""",
        "over": ["inputs", "histories"],
        "quantifier": """all Hermitian matrices over a finite alphabet (degenerate and singular ones included), all index
        ranges, all basis pairs, all histories of moves between eigenbases up to the depth bound""",
        "why": """Tests use one random matrix; degeneracy, complex phases (row/column and conjugation conventions) and
        partial spectra need every case.""",
        "files": [S + "state_vector/eigenstate_calculation.py", S + "operator/operator.py", S + "operator/operations.py",
                  S + "basis/explicit_basis.py", S + "state_vector/eigenstate_list.py", S + "state_vector/state_vector.py"],
        "mechanism": [("diagonalisation and expectation values", S + "state_vector/eigenstate_calculation.py"),
                      ("functions of operators", S + "operator/operator.py"),
                      ("explicit bases of eigenstates", S + "basis/explicit_basis.py")],
        "state": [("current basis, Hamiltonians and state", "moved together between eigenbases", "return value of each move")],
        "technique": LOCKSTEP,
        "level_note": NOTE + """Every 2x2 Hermitian matrix over 3 diagonal and 6 off-diagonal values, every 3x3 over 2 (3)
        and 3 (4), every index range; histories of 3 (4) moves.""",
    },
    {
        "id": "C10",
        "title": "State and probability lists address, combine and average the right members",
        "statement": """Every member of a list is found by its flat, negative or stacked (wrapped) index, as vector, dual or
        probability; iterating and collecting are inverse; weighted sums, tables of inner products (also with eigenvalues,
        also between lists in different bases), cuts along any ordered choice of axes, averages with or without weights and
        marginal sums over any axes contain exactly the right numbers and are labelled with the right basis. Inputs are
        never changed.""",
        "over": ["inputs", "configurations"],
        "quantifier": """all list shapes up to the bound, all members, all ordered axis subsets and indices, all basis pairs""",
        "why": """The tests never take lists of several axes apart; mistakes in reshaping, axis order and defaults are
        invisible for one axis or equal sizes.""",
        "files": [S + "state_vector/state_vector_list.py", S + "probability_vector/probability_vector.py",
                  S + "state_vector/state_vector.py", S + "state_vector/util.py", S + "util/util.py"],
        "mechanism": [("lists of states", S + "state_vector/state_vector_list.py"),
                      ("probabilities", S + "probability_vector/probability_vector.py")],
        "technique": LOCKSTEP,
        "level_note": NOTE + """Nine (twelve) list shapes of one to three (four) axes, three kinds of state.""",
    },
    {
        "id": "C13",
        "title": "The Hamiltonian is kinetic plus potential energy, at every Bloch phase",
        "statement": """The momentum-basis Hamiltonian of a potential has exactly the matrix elements of kinetic energy
        (with the Bloch wavevector added) plus the potential, on any lattice, grid and resolution; it is Hermitian for a
        real potential, agrees between the direct and the basis-converted builders, and its spectrum repeats with whole
        reciprocal lattice vectors. A flat potential gives the free-particle energies. Harmonic-oscillator bases are
        orthonormal eigenstates of their harmonic potential, centred where asked.""",
        "over": ["inputs", "configurations"],
        "quantifier": """all lattices, grid shapes and resolutions of the bounded families, all potentials (the map is
        linear: all impulse potentials), all Bloch fractions of a grid""",
        "why": """The tests use a flat potential or one shape; wrong wavevector, ordering or scaling of a single axis needs
        unequal shapes, oblique lattices and non-zero Bloch phases.""",
        "files": [S + "hamiltonian_builder/momentum_basis.py", S + "stacked_basis/potential_basis.py",
                  S + "stacked_basis/sho_basis.py", S + "basis/evenly_spaced_basis.py"],
        "mechanism": [("momentum basis Hamiltonian", S + "hamiltonian_builder/momentum_basis.py"),
                      ("basis of a one-dimensional potential", S + "stacked_basis/potential_basis.py"),
                      ("harmonic oscillator states", S + "stacked_basis/sho_basis.py")],
        "technique": LOCKSTEP,
        "level_note": NOTE + """All lattices of the family in one to three dimensions, shapes up to 5 (8) points per axis.""",
    },
    {
        "id": "C14",
        "title": "A potential stays one periodic function through load, resample and convert",
        "statement": """Loading a potential from JSON, CSV or saved files, dropping or moving its origin, capping,
        truncating and undoing the truncation, changing the resolution, interpolating onto a finer or evenly spaced grid,
        converting the basis and finding comparison points never changes the energy function it describes except by what
        the operation promises: sampled values are kept at the points they were given for, band-limited functions are
        reproduced everywhere, and inverse operations are inverse.""",
        "over": ["inputs", "configurations"],
        "quantifier": """all lattices and grid shapes up to the bound, all potentials (impulse or Fourier-mode basis of the
        linear maps), all parameters of a grid""",
        "why": """The tests check the shape of results or a single potential; phase ramps, axis order and fenceposts appear
        only for particular shapes and parities.""",
        "files": [S + "potential/potential.py", S + "potential/point_potential.py", S + "potential/conversion.py",
                  S + "potential/_comparison_points.py", S + "util/interpolation.py"],
        "mechanism": [("loading, capping and interpolation", S + "potential/potential.py"),
                      ("point potentials", S + "potential/point_potential.py"),
                      ("conversion", S + "potential/conversion.py")],
        "technique": LOCKSTEP,
        "level_note": NOTE + """Grids up to 5 (8) points per axis, one to three dimensions, all lattices of the family.""",
    },
    {
        "id": "C15",
        "title": "Every representation of a noise kernel describes the same correlations",
        "statement": """Full, diagonal, isotropic and per-axis noise kernels and the lists of noise operators with their
        eigenvalues that are generated from them (by diagonalisation, Fourier transform, real sines and cosines, fitted or
        explicit Taylor expansion, in one or more axes) describe the same correlation function: rebuilding the kernel from
        the operators returns it (or the promised truncation of it), conversions between representations are inverse, and
        temperature corrections and basis changes act on the operators as on matrices. The numbers of operators and
        eigenvalues agree. This holds for all kernel scales, including kernels with zeros.""",
        "over": ["inputs", "histories"],
        "quantifier": """all isotropic kernels over an alphabet of values up to the grid bound, all small two-point kernels,
        all truncations and all chains of conversions""",
        "why": """The tests use one smooth kernel of order one; conjugation, parity of the grid, zeros and scale need every
        small kernel.""",
        "files": [S + "kernel/kernel.py", S + "kernel/build.py", S + "kernel/conversion.py", S + "kernel/gaussian.py",
                  S + "kernel/lorentzian.py", S + "kernel/sample.py", S + "kernel/solve/_eigenvalue.py",
                  S + "kernel/solve/_fft.py", S + "kernel/solve/_taylor.py", S + "kernel/solve/_util.py"],
        "mechanism": [("conversion between representations", S + "kernel/kernel.py"),
                      ("noise operators from Fourier transforms", S + "kernel/solve/_fft.py"),
                      ("noise operators from diagonalisation", S + "kernel/solve/_eigenvalue.py"),
                      ("noise operators from expansions", S + "kernel/solve/_taylor.py")],
        "technique": LOCKSTEP,
        "level_note": NOTE + """Isotropic kernels over small value alphabets up to 5 (7) points, two-axis products, three scales.""",
    },
    {
        "id": "C11",
        "title": "Compressed Bloch wavefunctions stand for states of the whole lattice",
        "statement": """A list of Bloch wavefunctions, stored per wavevector in a basis of one unit cell, stands for definite
        states of the whole sampled lattice: component p of wavevector q is the plane wave q + N p. Decompressing them one by
        one, all together, band by band or through the Bloch basis gives the same states on the lattice of the right size;
        unfurling gives their equally weighted sum; generating a wavepacket solves the Hamiltonian of each wavevector
        for exactly the requested bands, so the decompressed states are orthonormal eigenstates of the lattice's Hamiltonian.
        Selecting, collecting and converting lists keeps bands, wavevectors and energies aligned.""",
        "over": ["inputs", "histories"],
        "quantifier": """every sampled lattice up to the bound in one, two and three dimensions, every supported list and
        state basis (full, truncated, evenly spaced, explicit), every wavevector, band selection and address""",
        "why": """Tests decompress one or two lattices in full Fourier bases; truncated bases, mixed parities, single-point
        axes and band selections with offsets are independent axes that only enumeration combines.""",
        "files": [S + "wavepacket/wavepacket.py", S + "wavepacket/get_eigenstate.py", S + "wavepacket/eigenstate_conversion.py",
                  S + "wavepacket/conversion.py", S + "basis/block_fraction_basis.py", S + "basis/evenly_spaced_basis.py"],
        "mechanism": [("decompression and the Bloch basis", S + "wavepacket/get_eigenstate.py"),
                      ("unfurling", S + "wavepacket/eigenstate_conversion.py"),
                      ("generation at sampled wavevectors", S + "wavepacket/wavepacket.py")],
        "technique": LOCKSTEP,
        "level_note": NOTE + """Lists up to 4 (6) and cells up to 5 (7) points per axis; generation compared with exact diagonalisation.""",
    },
    {
        "id": "C12",
        "title": "Localised states re-mix the Bloch states and carry the same Hamiltonian",
        "statement": """Applying a localisation operator mixes the bands at each wavevector and nothing else: the Wannier
        states are the translations by whole unit cells of the sum over wavevectors, orthonormal, spanning what the Bloch states
        span, and the Hamiltonian given in the Wannier basis is the Bloch Hamiltonian in that basis, in the order of that basis.
        The operator found from projections is an isometry at each wavevector whose overlap with the projections is
        hermitian and positive, so the localised states do not depend on the phases or mixing of the given bands. Tight-binding
        methods change only one phase per wavevector, giving every state the asked phase at the asked or maximal point;
        starting guesses are what they are named after; position-operator states diagonalise position.""",
        "over": ["inputs", "histories"],
        "quantifier": """every sampled lattice up to the bound in one, two and three dimensions, every supported state basis,
        every number of bands and localised states, identity, diagonal, unitary and rectangular mixings, every point of the cell""",
        "why": """Most of this module has no tests, and with real symmetric Hamiltonians, one band or square shapes a wrong
        conjugation, order or cell size does not show.""",
        "files": [S + "wavepacket/localization_operator.py", S + "wavepacket/get_eigenstate.py",
                  S + "wavepacket/localization/_projection.py", S + "wavepacket/localization/_tight_binding.py",
                  S + "wavepacket/localization/_operator.py", S + "state_vector/util.py"],
        "mechanism": [("Wannier states and Hamiltonian", S + "wavepacket/get_eigenstate.py"),
                      ("mixing of bands", S + "wavepacket/localization_operator.py"),
                      ("projection by singular value decomposition", S + "wavepacket/localization/_projection.py"),
                      ("phases at a point", S + "wavepacket/localization/_tight_binding.py")],
        "technique": LOCKSTEP,
        "level_note": NOTE + """Full lists of wavevectors only; orthonormal wavefunctions.""",
    },
    {
        "id": "C16",
        "title": "States evolve by the Schrodinger equation; every solver is posed that problem",
        "statement": """The state returned at each of the requested times is exp(-iHt/hbar) applied to the initial state (the
        state at t=0), whatever its norm, for the decomposition, diagonal and integrated solutions and any time grid
        (number, step, offset), so evolving in two goes is evolving in one. Time grids agree with each other: times are the points
        offset + i step of the fundamental times, spaced by the fundamental dt. Each stochastic solver is handed, once, the stated
        problem: per integration step of the fundamental dt it applies H dt/hbar and collapse operators L sqrt(dt/hbar) in
        the basis of the Hamiltonian, with the right number of steps, trajectories and realisations, and its answer is returned
        in order. Relocalised trajectories continue, time step by time step, from an orthonormal set of states whose
        probabilities reproduce the ensemble of realisations.""",
        "over": ["inputs", "schedules", "histories"],
        "quantifier": """all time grids up to the bound, all sizes and structures of Hamiltonian, all patterns of occupied
        diagonals of Hamiltonian and collapse operators, zero to three operators, all sequences of outcomes of random choices""",
        "why": """No test covers the solvers; errors of scale, time step, offset or ordering do not raise, and random choices
        hide errors from sampled runs.""",
        "files": [S + "dynamics/schrodinger/solve.py", S + "dynamics/stochastic_schrodinger/solve.py",
                  S + "basis/time_basis_like.py", S + "state_vector/state_vector_list.py"],
        "mechanism": [("Schrodinger solutions", S + "dynamics/schrodinger/solve.py"),
                      ("stochastic solvers and relocalisation", S + "dynamics/stochastic_schrodinger/solve.py"),
                      ("time grids", S + "basis/time_basis_like.py")],
        "technique": "explicit-state model checking: exhaustive lockstep exploration, external solvers replaced by recording stand-ins and every outcome of the random choices enumerated",
        "level_note": NOTE + """The native solver is not installed: the problem it is handed is checked, not its answer.""",
    },
    {
        "id": "C17",
        "title": "Tunnelling between sites is a conservative master equation",
        "statement": """From jump rates (from band, to band, to which neighbouring cell) to scattering functions one master
        equation is solved. The rate matrix holds, for each site, the sum of the jumps to each other site of the periodic
        supercell; jumps and rates convert into each other, into other supercells and into fewer bands; the generator loses
        no probability and leaves its input alone. The occupation at each time is exp(M t) applied to the initial one, for any
        start, so it can be continued from any time, its decay rates and coefficients rebuild it, and the equilibrium is the
        state that no longer changes. The scattering function is the sum over sites of occupation times exp(i dk.x), with x
        the shortest displacement to where the bands are, averaged over equilibrium as stated; closed forms with two sites
        per cell equal that of the lattice they describe.""",
        "over": ["inputs", "configurations"],
        "quantifier": """every shape of supercell (including one and two cells along an axis) and number of bands up to the bound,
        every single jump and generic sets, every starting site, several lattices, wavevectors and scales of rate""",
        "why": """There are no tests of it; direction of jumps, wrapping, order of sites and bands and normalisation need
        unequal rates, several bands and small supercells together.""",
        "files": [S + "dynamics/incoherent_propagation/tunnelling_matrix.py", S + "dynamics/incoherent_propagation/eigenstates.py",
                  S + "dynamics/incoherent_propagation/isf.py", S + "dynamics/isf.py", S + "dynamics/util.py",
                  S + "dynamics/tunnelling_basis.py", S + "dynamics/stochastic_schrodinger/solve.py",
                  S + "probability_vector/probability_vector.py"],
        "mechanism": [("jumps, rates and generators", S + "dynamics/incoherent_propagation/tunnelling_matrix.py"),
                      ("evolution by eigenstates", S + "dynamics/incoherent_propagation/eigenstates.py"),
                      ("scattering functions", S + "dynamics/isf.py"),
                      ("averages over equilibrium", S + "dynamics/incoherent_propagation/isf.py")],
        "technique": LOCKSTEP,
        "level_note": NOTE + """Supercells up to 3x3 (5x5), up to three bands; the two-site closed forms are compared with the lattice.""",
    },
    {
        "id": "C18",
        "title": "Cached results are what the function returned, whatever interrupts them",
        "statement": """A cached function returns what the function itself returned for that cache file: depending on the way it is
        called it reads the file, calls the function exactly once, and saves or does not save, and the value comes back
        unchanged (types, dtypes, shapes, bases). Exceptions pass through and leave the cache as it was. If the process is killed,
        the call interrupted or the disk full at any point of a call, the cache is afterwards as if the call had saved
        its result or had not been made: later calls never fail and never see partial data. Calls racing on one file return
        and leave whole values. Deleting the file forgets the value; different files do not affect each other.""",
        "over": ["histories", "crash points", "schedules"],
        "quantifier": """all sequences of calls, failures, deletions and mutations of returned values up to the depth; every line
        and every written byte as a crash point; every interleaving of two calls up to the preemption bound""",
        "why": """No test covers the caches; torn files, stale values and aliasing only appear after a particular history or
        interruption, and the next run of the user's script then fails or silently uses wrong data.""",
        "files": [S + "util/decorators.py"],
        "mechanism": [("pickle cache and its four ways of being called", S + "util/decorators.py"),
                      ("array cache", S + "util/decorators.py")],
        "state": [("cache files", "the user's cache directory", "save of a call")],
        "technique": "stateless model checking of the real code: all call histories, all crash points and torn writes injected into forked children, all interleavings of two threads under a controlled scheduler",
        "level_note": NOTE + """Histories up to depth 3-4 (4-5); kill, interrupt and write error at every line or byte; two threads
        with at most 2 (3) preemptions at line granularity.""",
    },
    {
        "id": "C19",
        "title": "Wannier90 is given the stated problem and its answer is read back exactly",
        "statement": """The files handed to Wannier90 follow its formats and say what the wavepackets are: the cell in angstrom, every
        wavevector as a fraction of the reciprocal lattice, the overlaps <u_mk|u_n,k+b> for every neighbour asked for (with the
        right phase when the neighbour lies in another zone, or none along axes taken as tightly bound), the projections
        <psi_mk|g_n>, and the options given. The unitary matrices it answers with come back as the localisation operator in the order of the
        bands and wavevectors, for all bands together and for each by itself. If the program is missing or fails at either stage the user
        is told the directory and a run by hand is taken up; the directory is removed whatever happens.""",
        "over": ["inputs", "configurations", "histories"],
        "quantifier": """all lattices of the family, shapes of the list of wavevectors and of the cell up to the bound, kinds of state
        basis, numbers of bands, kinds of projection, tightly bound axes; every sequence of failures of the program""",
        "why": """The tests only parse one example file: conjugations, order of bands, zone boundaries and fake axes in one or two
        dimensions silently give a different localisation.""",
        "files": [S + "wavepacket/localization/_wannier90.py", S + "wavepacket/localization/_projection.py",
                  S + "wavepacket/wavepacket.py", S + "wavepacket/get_eigenstate.py"],
        "mechanism": [("files written, read and program runs", S + "wavepacket/localization/_wannier90.py"),
                      ("projections", S + "wavepacket/localization/_projection.py")],
        "technique": "explicit-state model checking: exhaustive lockstep exploration of the exchange with a strict stand-in for the external program, with every sequence of its failures injected",
        "level_note": NOTE + """The stand-in is written from the file formats in the Wannier90 manual; as many projections as bands.""",
    },
    {
        "id": "C20",
        "title": "Overlaps and their momentum form describe the localised states",
        "statement": """The overlap of states i and j at shift s is conj(psi_i(x)) psi_j(x - s) at every point of the periodic
        supercell, for lists of states and for wavepackets, in whatever basis is chosen, with shifts given as stacked or flat
        index. The interpolators (by wavevector, by fractions of the reciprocal grid, in plane with all or only the largest
        points) all evaluate its Fourier sum over the points nearest the origin, at any wavevector and shape of input. The
        average over directions counts each direction once. The occupation integral equals that of the Fermi gas, the
        potential integral that of electrons scattered by a hydrogen atom, and rates are the product of the two. Names of cached overlaps do not collide.""",
        "over": ["inputs", "configurations"],
        "quantifier": """all shapes of grid up to the bound with unequal axes, all shifts, numbers of states, lattices of the family,
        every wavevector of the reciprocal grid and generic ones, all numbers of points kept""",
        "why": """The tests use a cube of ten points, on which exchanged or mis-scaled axes and row-crossing shifts do
        not show.""",
        "files": [S + "overlap/calculation.py", S + "overlap/interpolation.py", S + "overlap/overlap.py",
                  S + "dynamics/hermitian_gamma_integral.py"],
        "mechanism": [("overlaps", S + "overlap/calculation.py"),
                      ("interpolation and angle average", S + "overlap/interpolation.py"),
                      ("integrals over electrons", S + "dynamics/hermitian_gamma_integral.py")],
        "technique": LOCKSTEP,
        "level_note": NOTE + """Grids up to 9, 6x6 and 5x5x5 (15, 9x9, 6x6x6). Whether the momentum transfer of the
        potential integral is k_f sin(phi/2) or twice that is not claimed.""",
    },
    {
        "id": "C21",
        "title": "Plots of fields show exactly the data asked for, where it lies",
        "statement": """Every plot or animation of a function on the grid (raw data, states, probabilities, potentials, overlaps;
        along one axis, in a plane, along a path, through a list or through the layers of a surface) draws exactly the values of
        the requested measure (real, imaginary, absolute, angle) on exactly the requested slice, each at the position or momentum
        where it lies, whatever basis the object is given in and however the plotted axes are ordered. The default slice goes
        through the largest value. Every point of the slice appears once (lines close the period with the first value again),
        colours range over the values shown, the minimum path follows the lowest point above each place, named sites are wrapped
        into the cell, differences are those of the two objects, and the picture goes on the axes supplied.""",
        "over": ["inputs", "configurations"],
        "quantifier": """all shapes of grid up to the bound with unequal axes, position, momentum, truncated and evenly spaced bases,
        every ordered choice of axes, every index of the others, every measure and scale, every path between corners of the grid""",
        "why": """No test draws anything but one line; exchanged axes, a wrong slice or a plot of coefficients in the wrong basis
        gives a plausible picture.""",
        "files": [S + "util/plot.py", S + "potential/plot.py", S + "state_vector/plot.py", S + "state_vector/state_vector_list_plot.py",
                  S + "probability_vector/plot.py", S + "overlap/plot.py", S + "util/util.py"],
        "mechanism": [("lines, maps and animations", S + "util/plot.py"),
                      ("potentials", S + "potential/plot.py"),
                      ("states", S + "state_vector/plot.py"),
                      ("overlaps", S + "overlap/plot.py")],
        "technique": LOCKSTEP,
        "level_note": NOTE + """Artists are compared as data (points of lines, centres and values of cells, colour limits) and for
        every scale also rendered. Grids up to 7, 4x3 and 3x4x2 (11, 5x5 and 4x5x2). Angles are compared modulo a turn; slices
        through tied largest values are not compared; the squared colour scale is not claimed.""",
    },
    {
        "id": "C22",
        "title": "Plots of lists, operators, kernels and Bloch states show what they are asked",
        "statement": """Plots of lists of values, rates, eigenvalues, occupations, operators (along diagonals, sparsity, expectation
        against another operator), noise kernels and operators (full, diagonal, isotropic, along an axis, their truncation, errors
        and samples) and Bloch wavepackets (coefficients, weights, densities in x and k, bands, tables) draw exactly the values
        asked for in the chosen measure, against the right abscissa, whatever basis or container they are given in, one curve for
        each item asked for, on the axes supplied, without changing the object that is plotted.""",
        "over": ["inputs", "configurations"],
        "quantifier": """all sizes of list, operator, kernel and lattice up to the bound in one to three dimensions with unequal
        axes, every ordered choice of axes, every index, offset of time basis, measure, scale and truncation""",
        "why": """No test draws any of these; a wrong slice, abscissa, normalisation or conjugate, and an exception for short lists
        or unusual bases, are not seen until the picture is believed.""",
        "files": [S + "basis/time_basis_like.py", S + "state_vector/eigenvalue_list_plot.py", S + "kernel/plot.py",
                  S + "operator/plot.py", S + "wavepacket/plot.py", S + "stacked_basis/util.py", S + "util/plot.py",
                  S + "state_vector/plot_value_list.py"],
        "mechanism": [("values and rates", S + "state_vector/plot_value_list.py"),
                      ("operators", S + "operator/plot.py"),
                      ("kernels", S + "kernel/plot.py"),
                      ("Bloch states", S + "wavepacket/plot.py")],
        "technique": LOCKSTEP,
        "level_note": NOTE + """Artists are compared as data. Angle averages, histograms and fits are not claimed; the diagonal
        chosen by number is checked for position bases.""",
    },
    {
        "id": "C23",
        "title": "Averages along trajectories and over bands are those of the states",
        "statement": """Positions of states are found from the average of exp(2 pi i x/L) along any axis: modulo the cell, followed
        from time to time by the shortest way, with a width that is zero for a point; positions and momenta along any axis of a
        line, plane or space are the averages over the state, whatever basis it is given in. The displacement and correlation of
        positions at each delay are the mean over all pairs of times with that delay, at delays spaced as the times. The energy of a
        band is the mean over wavevectors; thermal occupations depend only on differences of energy; occupation of bands adds the
        weights of a state in all wavevectors; a free particle has its own effective mass, with localised states as with energies,
        whatever the number of wavevectors. Plots show these numbers against the right times, energies or bands. States are left
        as they were.""",
        "over": ["inputs", "histories", "configurations"],
        "quantifier": """all shapes of grid in one to three dimensions up to the bound, all axes, bases, numbers of times and
        realisations, point and plane-wave states, all sequences of positions over an alphabet up to the length bound, all sampled
        lattices and numbers of bands, temperatures and shifts of energy""",
        "why": """No test calls any of these; a wrong sign, a normalisation, wrapping or the wrong axis still gives a smooth curve.""",
        "files": [S + "state_vector/plot.py", S + "wavepacket/plot.py", S + "state_vector/plot_value_list.py"],
        "mechanism": [("trajectories", S + "state_vector/plot.py"), ("bands and masses", S + "wavepacket/plot.py")],
        "technique": LOCKSTEP,
        "level_note": NOTE + """Grids up to 5, 4x3 and 2x3x4 (9, 4x4, 3x3x3); sequences of up to 5 (7) positions over three values. The
        two averages called drift are only compared with each other's inputs.""",
    },
    {
        "id": "C24",
        "title": "Computing changes nothing it was given and can be done again",
        "statement": """Every conversion, operator, kernel, wavepacket, potential, rate and average is a function of its arguments:
        a call leaves every array, list, record and basis it was given as it was, in values, shape and type; made a second time
        with the same arguments it gives the same answer, whatever was computed before; and an answer already given is not changed
        by a later call. Plots likewise leave the objects they draw as they were.""",
        "over": ["inputs", "histories", "configurations"],
        "quantifier": """all calls made by the other checks in this catalogue, on all the objects they enumerate: every step of every
        sequence of conversions, operations and plots up to their bounds""",
        "why": """A test makes each call once on objects it throws away; an array scaled in place, a buffer that is shared or a cache
        that can be written to is seen only by the next user of the same object.""",
        "files": [S + "stacked_basis/conversion.py", S + "operator/conversion.py", S + "kernel/conversion.py",
                  S + "wavepacket/conversion.py", S + "potential/conversion.py", S + "util/plot.py"],
        "mechanism": [("conversions", S + "stacked_basis/conversion.py"), ("operators", S + "operator/operator.py"),
                      ("kernels", S + "kernel/build.py"), ("plots", S + "util/plot.py")],
        "technique": LOCKSTEP,
        "level_note": NOTE + """All roots of the quick tiers of C01-C23 (large families: one root in 2 to 40 in the quick tier, chosen
        by a hash; all in the thorough tier). At the end of each root everything the package remembers is restored to what it was
        after import and the calls are replayed in the opposite order. Random draws, files and figures are made once only; objects inside a figure or a
        third-party object are not compared.""",
    },
    {
        "id": "C25",
        "title": "The options which all plots share mean the same to all of them",
        "statement": """Every plot and animation draws on the axes it is given and opens no figure; without axes it draws the same
        picture in one new figure, which it returns. The scale asked for is that of the axis of values of a line and of the colours
        of a map, and changes neither places nor values. The measures of complex values belong together: the pictures of the real
        and imaginary part, of the absolute value and of the angle are those of one complex number at every place.""",
        "over": ["inputs", "configurations"],
        "quantifier": """all plots of the package which the checks of plots draw (135 functions), on the objects they enumerate, with
        axes given or not, every measure and a second scale""",
        "why": """No test draws anything; an option which is dropped on the way through the layers of plotting functions is not
        noticed, since the picture looks reasonable.""",
        "files": [S + "util/plot.py", S + "state_vector/plot.py", S + "wavepacket/plot.py", S + "potential/plot.py",
                  S + "operator/plot.py", S + "kernel/plot.py"],
        "mechanism": [("plots of arrays", S + "util/plot.py"), ("plots of states", S + "state_vector/plot.py"),
                      ("plots of Bloch states", S + "wavepacket/plot.py")],
        "technique": LOCKSTEP,
        "level_note": NOTE + """One root in 4 to 12 of the quick tiers of C21-C23, chosen by a hash (thorough: all). Histograms, fits,
        averages of what is measured and samples of random numbers are left out where the statement does not apply to them.""",
    },
    {
        "id": "C26",
        "title": "An answer depends on the values given, not on how they are stored",
        "statement": """Every function of the package gives the same answer for the same values however they are held: arrays that are
        read-only, have gaps or their axes in the other order in memory (slices, transposes), real or whole-numbered arrays in place
        of complex or real ones of the same values, single numbers of Python or of numpy (indices from argmax, integral lengths,
        times and temperatures). Nothing is cut off, refused or reordered.""",
        "over": ["inputs", "configurations"],
        "quantifier": """all calls made by the other checks in this catalogue, on all the objects they enumerate, for each of four ways to
        store what they are given""",
        "why": """Tests hold every array as a fresh, contiguous, complex one. Code which works in place, allocates by the type of its input,
        branches on the type of an index or reads memory in another order fails only for the arrays that users get from slices,
        transposes, argmax and files.""",
        "files": [S + "basis/basis_like.py", S + "basis/util.py", S + "stacked_basis/util.py", S + "stacked_basis/conversion.py",
                  S + "operator/operations.py", S + "kernel/kernel.py", S + "util/util.py"],
        "mechanism": [("bases", S + "basis/basis_like.py"), ("points", S + "stacked_basis/util.py"),
                      ("operators", S + "operator/operations.py"), ("lists", S + "state_vector/state_vector_list.py")],
        "technique": LOCKSTEP,
        "level_note": NOTE + """All families of C01-C23 (but not the types kept by the cache) run again with the boundary of the package wrapped:
        arguments of calls from outside are stored in another way (read-only with gaps and reversed axes; simplest type; real;
        numbers of numpy), and the oracles of those checks judge the answers. Single precision is not explored.""",
    },
    {
        "id": "C27",
        "title": "No absolute size counts as small, large or usual",
        "statement": """Where the answer of a function goes as a power of what it is given (the values or eigenvalues of an operator, state,
        potential or kernel, all the lengths of its bases, or all their times), it does so at every scale: for values 1e-20 or 1e20 times
        as large, and lengths or times 1e-10 or 1e10 times, the answer is that power of the factor times the answer. Nothing is taken for
        zero, for equal, for converged or for invalid because it is small or large in some unit.""",
        "over": ["inputs", "configurations"],
        "quantifier": """all calls made by the other checks in this catalogue with every argument that carries values, lengths or times; not
        sums of terms of different origin (an affine point, kinetic plus potential energy), and not the operators simplified by a
        threshold on their rates""",
        "why": """The package is used in SI units, where energies are 1e-20, lengths 1e-10 and times 1e-12, while tests hold numbers near one.
        A default tolerance in a comparison or a threshold written as a number is right in the one and wrong in the other.""",
        "files": [S + "wavepacket/get_eigenstate.py", S + "kernel/kernel.py", S + "operator/operations.py",
                  S + "state_vector/eigenstate_calculation.py", S + "dynamics/stochastic_schrodinger/solve.py", S + "stacked_basis/util.py"],
        "mechanism": [("wavepackets", S + "wavepacket/get_eigenstate.py"), ("operators", S + "operator/operations.py"),
                      ("kernels", S + "kernel/kernel.py"), ("rates", S + "dynamics/incoherent_propagation/tunnelling_matrix.py")],
        "technique": LOCKSTEP,
        "level_note": NOTE + """All families of C01-C23 (but not the cache, random draws and files) run again with every call from
        outside made again in other units (the first two calls of each function and kind of argument per root, then the next beyond one and a half times as
        many). The oracle is the call itself at five
        moderate factors (up to 2000 for values, 32 for lengths and times): a dependence which is no power for these is not judged.""",
    },
    {
        "id": "C28",
        "title": "What is returned fits together, in the bases that were promised",
        "statement": """Every record a public function returns is consistent in itself and with the call: it has a basis, data and (where its
        kind has them) eigenvalues; it holds as many values as its bases have states, and as many eigenvalues as it numbers; both legs of a
        record in a single basis are the same basis; and wherever the signature says that a leg of the answer is the basis (or has the
        shape) of an argument, it is that basis (and shape), not another one of the same size. Kinds of basis, of numbers and the number
        of axes of arrays are those the signature names.""",
        "over": ["inputs", "configurations"],
        "quantifier": """all calls made from the signatures (every public function whose type names bases, every assignment of different
        bases of one size to its type variables, every value of its options), and all calls of public functions with a typed answer made,
        at any depth, by the checks of this catalogue; not what a type leaves open (Any, unpacked axes, sizes)""",
        "why": """Data are flat arrays, and everything that is done with them later (conversion, plots, products) trusts the basis they come
        with: a record labelled with the wrong basis of the right size is silently misread. Tests look at the data.""",
        "files": [S + "operator/conversion.py", S + "operator/operations.py", S + "state_vector/conversion.py", S + "kernel/conversion.py",
                  S + "wavepacket/conversion.py", S + "wavepacket/get_eigenstate.py", S + "basis/basis_like.py"],
        "mechanism": [("conversions", S + "operator/conversion.py"), ("states", S + "state_vector/eigenstate_calculation.py"),
                      ("kernels", S + "kernel/kernel.py"), ("wavepackets", S + "wavepacket/get_eigenstate.py")],
        "technique": LOCKSTEP,
        "level_note": NOTE + """All families of C01-C23 (but not the cache) run again with every call of a public function, also those
        inside the package, judged by its answer. The oracle is the layout of each kind of record, written down in the check, and the
        signatures as frozen in mc/contracts.json, the variables of which are unified with the arguments of the call.""",
    },
]
