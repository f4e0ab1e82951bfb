REPLAY = 'TLA+ specification, TLC design check and simulation, behaviours replayed on the real code'
TRACE = 'TLA+ trace specification, TLC validates traces recorded from the real code'
CLAIMED['C01'] = (REPLAY, 'Design (spec/PathAlgebra.tla) exhaustive for small constants; behaviours of the specification (sequences of constructions and joins) replayed on the real Path class and compared point by point with the exact piecewise definition. Trusts TLC and the harness in harness/props/pathalg.py; random behaviours are a sample.')
CLAIMED['C02'] = (REPLAY, 'As C01, with cuts and changes of the starting point at, between and within rounding distance of corners.')
CLAIMED['C03'] = (TRACE, 'Meshes of specification generated paths are recorded as integer events (station of every vertex) and every clause is an invariant TLC evaluates on them (spec/PathMesh.tla).')
CLAIMED['C04'] = (REPLAY, 'Exact affine maps (spec/Rigid.tla) replayed on every kind of object and on meshes; group laws checked by TLC on the design.')
CLAIMED['C05'] = (REPLAY, 'Surfaces are specified by exact rational point grids (spec/SurfaceAlgebra.tla); sequences of operations, including on collections, are replayed and compared at 25 points per surface, corners, names and edges.')
CLAIMED['C06'] = (TRACE, 'spec/Shell.tla: design (lattice shells are closed chains with volume det(dp, dq, dr)) exhaustive in its constants; random shells generated by TLC, their real meshes recorded as vertex stars and validated: edges cancel along every line, vector area zero, exact (flat) or 6% (curved) volume, outward.')
CLAIMED['C07'] = (TRACE, 'spec/SurfaceMesh.tla: the refinement and triangulation algorithm exhaustively on small grids; recorded triangles of real meshes in the parameter plane, one TLC step each: orientation, reciprocal neighbours, border, grid lines, sizes, names.')
CLAIMED['C08'] = (REPLAY, 'spec/MeshAlgebra.tla: a mesh is a bag of elements (point tuples) with names; joins, extractions, removals, renames, splits are total functions on it, design laws exhaustive; simulated histories replayed on real Mesh objects, operands rechecked after every step.')
CLAIMED['C09'] = (REPLAY, 'spec/MeshCleanup.tla: construction from arrays as a function (degenerate triangles, duplicate points, names); simulated arrays, including the scale from 1e-6 to 1e3, compared.')
CLAIMED['C10'] = (REPLAY, 'spec/Orientation.tla: exact signed volume and signed area of lattice bodies; every assignment of initial orientations of small bodies; inward and outward calls, higher order conversion.')
CLAIMED['C11'] = (REPLAY, 'spec/FileRoundTrip.tla: the histories of write, read and overwrite, the state of the files as a function; replayed over formats in a scratch folder.')
CLAIMED['C12'] = (REPLAY, 'spec/Excitation.tla: the excitation is a partial function from names to one value each, with acceptance conditions; histories with accepted and rejected assignments replayed, state and flags compared after every step.')
CLAIMED['C13'] = (REPLAY, 'spec/Superposition.tla: linear combinations with exact rational coefficients of solved unit problems (scenes of spec/Scenes.tla); potentials and fields of the real combination compared with the combination of the reference fields.')
CLAIMED['C14'] = (REPLAY, 'spec/FieldAlgebra.tla: fields form a vector space; expressions generated by TLC evaluated on real fields of all kinds and compared at points and on element level.')
CLAIMED['C15'] = (REPLAY, 'spec/SplitCollect.tla: work division into threads exhaustively in the design; the real split and results for different numbers of threads compared (bitwise where promised).')
CLAIMED['C16'] = (TRACE, 'spec/Energy.tla: recorded potential differences, line integrals, divergence and circulation of the real fields, in integers, as laws TLC evaluates on each event.')
CLAIMED['C17'] = (REPLAY, 'spec/Equivariance.tla: exact symmetry group elements (rotations, reflections, shifts, scalings) generated by TLC applied to geometry and point, real solution compared; solving is repeated only by the real code.')
CLAIMED['C18'] = (TRACE, 'spec/BoundaryConditions.tla: solved scenes probed at and next to every boundary; the conditions (voltage reached, jump of the normal field by the permittivity ratio, walls) are invariants on the recorded events; tolerances calibrated to the mesh sizes.')
CLAIMED['C19'] = (TRACE, 'spec/AxialInterp.tla: interpolated against direct values, derivatives, node agreement and domain, recorded in integers and validated by TLC.')
CLAIMED['C20'] = (TRACE, 'spec/Tracer.tla: the block-wise tracer modelled and checked for every length around the block boundaries; real flights over up to several blocks recorded around the seams and validated.')
CLAIMED['C21'] = (TRACE, 'spec/Motion.tla: laws of motion (energy, parabola, orbit, step limit) checked by TLC on recorded flights; single steps compared with an independent integration of the fields the library itself reports.')
CLAIMED['C22'] = (REPLAY, 'spec/FieldBounds.tla: bounds as state per field, histories of setting, changing the caller\'s array, probing (exactly zero or exactly the unbounded value) and flying replayed; every recorded step of a flight validated by TLC as inside (unbounded step) or outside (straight).')
CLAIMED['C23'] = (REPLAY, 'spec/PlaneIntersection.tla: the scan equals the last change of sides for all side sequences up to the bound; random lattice trajectories with exact rational intersections replayed, with scaled, flipped and shifted planes, refined trajectories and the helpers.')
CLAIMED['C24'] = (REPLAY, 'spec/Optics.tla: normal equations of the focus in exact integers, exactness for bundles through a point by TLC; random bundles replayed with rotations, shifts, scalings; initial velocities for all pairs of rational angles.')
CLAIMED['C25'] = (REPLAY, 'spec/Logging.tla: level histories exhaustively in the design; simulated histories of level changes, messages and library operations replayed with the file descriptors captured; startup settings in subprocesses.')
CLAIMED['C26'] = (REPLAY, 'spec/Plotting.tla: sessions of figures exhaustively in the design (everything drawn is displayed once, in time, in order); simulated sessions with meshes, trajectories, charges and potentials replayed with the window replaced by a recorder; the cells and colours of the vedo objects are compared with what the specification says is visible.')
CLAIMED['C27'] = (TRACE, 'spec/Series3D.tla: the terms of the expansion as exact integer polynomials (Euler, turning, Laplace laws exhaustively in the design); random tables and charges evaluated by the real code and each measurement decided by TLC; flights validated step by step.')
