"""Source of properties.jsonl (python3 tools/props_src.py > properties.jsonl)"""
import json
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = state
    P.append(d)


# ---------------------------------------------------------------- fields
prop("F01", "Selecting part of a field by index agrees with numpy",
     "Selecting from a field with integers, slices of either sign and any step, integer or boolean arrays, an ellipsis, new axes, component names or axis-named selections returns exactly the values numpy's selection of the same array returns, with the coordinates of every kept dimension selected the same way. Dimensions selected with a single index are dropped, or kept with length one when asked for, or dropped when of length one when asked for. The source field is unchanged, and assigning through such a selection writes exactly the selected values. Selections that make no sense, such as an axis named twice or an index past the end, are refused.",
     ["inputs", "configurations"],
     "every field dimension, centering and layout, and every combination of index selections",
     "tests try a dozen literal selections on one 3-d sample; the space of selection kinds x sign x step x centering x layout x dimensionality is combinatorial",
     ["viscid/sliceutil.py", "viscid/coordinate.py", "viscid/field.py"],
     [("selection standardisation", "viscid/sliceutil.py"), ("coordinate slicing", "viscid/coordinate.py StructuredCrds._sliceit / slice_and_*"),
      ("field slicing", "viscid/field.py Field._prepare_slice/_finalize_slice")])
prop("F02", "Selecting by coordinate value keeps exactly the points in range",
     "A range given in coordinate values (imaginary numbers, strings with a trailing j or f, or the location indexer) keeps exactly the points of an ascending axis whose coordinate lies between the two inclusive limits, every step-th one if a step is given, and a single coordinate value picks the nearest point. The data kept and the coordinates kept always belong together. On a time axis, dates and elapsed times select the same points as the equivalent numbers.",
     ["inputs", "configurations"],
     "every ascending, uniform or stretched axis, every centering, limits inside, outside, between and on grid points",
     "off-by-one and tolerance mistakes show only for particular limit/grid relations, which a handful of literals does not sample",
     ["viscid/sliceutil.py", "viscid/coordinate.py", "viscid/field.py"],
     [("value to index", "viscid/sliceutil.py std_sel2index / _expand_newaxis"), ("location indexer", "viscid/field.py Field.loc")])
prop("F03", "Forward-only reads reproduce any slice of a reversed dataset",
     "For any shape, any set of reversed dimensions and any basic selection, the forward-only selection computed for the underlying store plus its fix-up gives the same array as reversing the dimensions and applying the selection in memory. A lazily read field gives the same values for a selection made before its data is loaded as for the same selection made afterwards.",
     ["inputs", "histories"],
     "all shapes, subsets of reversed axes, integers and slices of either sign, and read orders (slice first or load first)",
     "the unit test enumerates one length and one dimension; the interaction of reversal, negative steps and out-of-range limits is not sampled",
     ["viscid/sliceutil.py", "viscid/field.py", "viscid/readers/hdf5.py", "viscid/readers/openggcm.py"],
     [("forward slices", "viscid/sliceutil.py make_fwd_slice"), ("lazy slicing", "viscid/field.py Field.slice_and_* on hypersliceable sources")])
prop("F04", "Component layout never changes the values of a vector field",
     "Converting a vector field between component-first and component-last layout, taking a component by name, collecting components (of the same or of different types) into a vector field, or wrapping an array in either layout keeps every value at the same point and component, and a field made in the image of another one has its layout, type, grid and time. Arithmetic, reductions, interpolation and streamlines give the same result for both layouts of the same field.",
     ["inputs", "configurations"],
     "every shape (also those where spatial sizes equal the number of components), centering, dtype and both layouts",
     "tests use one layout per test on shapes where a mix-up would raise; shapes with coinciding sizes are where data is silently scrambled",
     ["viscid/field.py"],
     [("layout conversion", "viscid/field.py VectorField.as_layout/_detect_layout/change_layout"), ("scalar_fields_to_vector", "viscid/field.py")])
prop("F05", "Field arithmetic agrees with numpy and keeps grid and metadata",
     "Any arithmetic, comparison or elementwise function of fields, arrays and scalars has at every point the value numpy gives for the operands' values there, and operators broadcast scalar fields over the components of vector fields in either layout. The result has the coordinates and centering of its field operand, the operands are unchanged, and after x op= y the name x stands for x op y.",
     ["inputs", "configurations"],
     "all operators, operand kinds and orders, dtypes, layouts, centerings and dimensions",
     "the operator x operand-kind x layout matrix is large and the failures are silent broadcasts along the wrong axis",
     ["viscid/field.py"],
     [("operators", "viscid/field.py Field.__add__ ... / _ow / __array_wrap__ / __array_ufunc__")])
prop("F06", "Reductions, integrals and axis changes keep values and grid together",
     "Reducing a field over axes gives the same numbers as numpy and leaves exactly the coordinates of the remaining axes; integrating along an axis gives the trapezoid sum over the true coordinates; and transposing, swapping, adding, dropping, reshaping to at least or at most some dimensions, or re-centering axes keeps every value attached to its coordinates and every axis its unit. None of them changes the source field.",
     ["inputs", "configurations"],
     "every dimensionality, axis subset, centering, layout and uniform or stretched coordinates",
     "values and coordinates can drift apart without any exception, and the tests compare shapes or a plot",
     ["viscid/field.py", "viscid/coordinate.py"],
     [("reductions", "viscid/field.py Field.mean/sum/.../_reduce"), ("trapz / cumtrapz", "viscid/field.py"), ("transpose", "viscid/field.py Field.transpose, viscid/coordinate.py transpose")])
prop("F07", "Cell centers, edges, spacings and extents of coordinates are consistent",
     "Cell-centered coordinates are the midpoints of consecutive node-centered ones, and extents, lengths, spacings, shapes and the node- or cell-centered versions derived from a coordinate object all agree with the coordinate arrays, for uniform and stretched grids alike. A uniform grid and the same points given explicitly are interchangeable in every query. Re-centering a field keeps its data and places each value at the same physical point.",
     ["inputs", "configurations"],
     "every number of axes and points per axis, spacing, origin, uniform and nonuniform representations",
     "the relations must hold between all pairs of queries on every grid; tests check one uniform grid's shapes",
     ["viscid/coordinate.py", "viscid/field.py"],
     [("uniform bounds", "viscid/coordinate.py UniformCrds"), ("nc <-> cc", "viscid/coordinate.py nc2cc/cc2nc"), ("re-centering", "viscid/field.py as_cell_centered/as_node_centered")])

# ------------------------------------------------------------ numerics
prop("N01", "Interpolation matches the trilinear and nearest definitions",
     "Trilinear interpolation returns at every requested point inside the grid the multilinear blend of the surrounding values, reproduces grid values at grid points and linear functions everywhere inside, never leaves the range of the surrounding values, and outside the grid uses the nearest boundary value in that direction; nearest interpolation returns the value of the closest grid point. The result for a point does not depend on the other points, on how the points are given, on layout, dtype or memory order of the field, and fields keep the point geometry of the seeds they were sampled on.",
     ["inputs", "configurations"],
     "every grid (uniform, stretched, single-point axes), centering, component count, dtype and seed kind, points inside, on faces and outside",
     "tests interpolate one smooth field at one seed set with a loose tolerance",
     ["viscid/cython/cycalc.pyx", "viscid/cython/cyfield.pyx", "viscid/cython/misc_inlines.pxd", "viscid/cython/__init__.py"],
     [("trilinear", "viscid/cython/cycalc.pyx _c_interp_trilin"), ("closest index", "viscid/cython/cycalc.pyx closest_ind / misc_inlines.pxd")])
prop("N02", "Vector calculus operators match their definitions on every backend",
     "Magnitude, dot, cross, normalize, projections, differences and absolute values match their pointwise definitions, and gradient, divergence, curl and the convective derivative match centered differences over the true coordinates in the interior (one-sided at the edges when edges are kept), for cell- and node-centered fields in either layout. Every available backend gives the same answer on the same grid, and averaging or taking the divergence of staggered fields uses the faces or edges of the same cell. Results keep the axes, units and time of their operands. Padding a field or an array past its boundaries keeps its values and repeats or linearly continues those at the edge.",
     ["inputs", "configurations"],
     "every nonuniform 3-d grid, centering, layout, dtype and backend",
     "tests check convergence on one analytic field and one backend; sign, axis and spacing mix-ups cancel on symmetric samples",
     ["viscid/calculator/calc.py", "viscid/calculator/necalc.py", "viscid/calculator/ecfc.py"],
     [("operators", "viscid/calculator/calc.py"), ("numexpr backend", "viscid/calculator/necalc.py"), ("staggered fields", "viscid/calculator/ecfc.py"), ("boundary extension", "viscid/calculator/calc.py extend_boundaries")])
prop("N03", "Streamlines follow the field, contain their seed and stop where they should",
     "Every streamline is a connected curve through its seed whose steps follow the sampled field direction and respect the step-size limits, and its ends are reported by status: it ends at the first point outside the outer box or radius, inside the inner radius, where the field vanishes, or at the length, time or step limit, and never goes on beyond such a point. Topology codes are the function of both end statuses that the documentation gives, and requesting only lines, only topology or one direction gives the corresponding part of the full answer.",
     ["inputs", "configurations"],
     "all fields, seeds, integration methods, directions, limits and boundary settings",
     "tests look at one dipole with default limits; stop conditions and status codes interact per method and direction",
     ["viscid/cython/streamline.pyx", "viscid/cython/integrate.pyx"],
     [("driver", "viscid/cython/streamline.pyx _py_streamline"), ("integrators", "viscid/cython/integrate.pyx"), ("end classification", "viscid/cython/streamline.pyx classify_endpoint")])
prop("N04", "Streamline results do not depend on chunking, processes or other seeds",
     "Lines and topology codes computed for a set of seeds are identical, in seed order, whatever the number of processes or threads, the chunk size, or which other seeds are in the same call, and equal those computed one seed at a time. A call that fails leaves later calls unaffected, and repeated calls give identical results.",
     ["schedules", "inputs", "histories"],
     "all seed sets, process counts, chunk factors and call sequences, including failing calls",
     "the default single-process path is the only one tests compare, once",
     ["viscid/cython/streamline.pyx", "viscid/parallel.py"],
     [("chunk distribution", "viscid/cython/streamline.pyx calc_streamlines"), ("pool", "viscid/parallel.py map_async")])
prop("N05", "Compiled kernels never touch memory outside their arrays",
     "For every valid field, seed set, option set and file, the compiled interpolation, streamline, integration, null-finding, patch and decompression kernels read and write only inside the arrays they were given and perform no undefined arithmetic. The result of a computation depends only on the values inside the field and not on what lies around it in memory.",
     ["inputs", "configurations"],
     "all shapes down to one point per axis, all points inside and outside, all methods",
     "bounds checks are compiled out, and a stray read usually returns plausible data in a test",
     ["viscid/cython/cycalc.pyx", "viscid/cython/cyfield.pyx", "viscid/cython/streamline.pyx", "viscid/cython/integrate.pyx", "viscid/cython/null_tools.pyx", "viscid/cython/cyamr.pyx"],
     [("kernels compiled with boundscheck off", "setup.py, viscid/cython/*.pyx")])
prop("N06", "Null points of a trilinear field are all found, once, at the right place",
     "For a three-dimensional vector field sampled on a grid, every cell whose trilinear interpolant has an isolated zero inside (an odd number of them) is reported, no cell is reported whose interpolant has none, each is reported once, with the index and position of the cell's lower corner, and cells closer to the origin than ibound are left out. A null's type (A, B or O) follows from the eigenvalues of the field's Jacobian there, and the Jacobian of a linear field is its matrix at every grid point. The answer does not depend on the memory layout or type of the data.",
     ["inputs"],
     "all grids, null positions in generic position, and linear structures of every type",
     "tests search two fields with a known pair of nulls",
     ["viscid/cython/null_tools.pyx"],
     [("sign reduction and root finding", "viscid/cython/null_tools.pyx")])
prop("N07", "Fields on mesh-refined patches match the patch that contains the point",
     "Sampling or tracing a field made of patches of any refinement that tile a box without overlap uses at every point the patch that contains the point (either patch on a shared face), gives the values of the equivalent single field where the patches sample a function linear in space, and does not depend on the order the patches are stored in or the points are visited in. Two patches are neighbors exactly if they touch. Arithmetic and slicing by location act patch by patch, leave out patches outside of the selection, and keep the patch geometry, and reductions equal those over the values of all patches.",
     ["inputs", "histories", "configurations"],
     "all patch layouts and refinements, point orders and selections",
     "tests plot one sample file; patch search state carries over from one point to the next",
     ["viscid/amr_field.py", "viscid/amr_grid.py", "viscid/cython/cyamr.pyx"],
     [("patch search", "viscid/cython/cyamr.pyx activate_patch"), ("neighbors", "viscid/amr_grid.py"), ("field ops", "viscid/amr_field.py")])
prop("N08", "Line integrals, resampling and flux functions match their definitions",
     "Integrating a field along lines gives for each line the trapezoid sum of the field (its projection on the line, or its magnitude) sampled on that line, whatever other lines are in the same call; resampling a line keeps its end points and the curve, projecting on a line uses the direction of the line there; the flux function of a planar field has that field as its rotated gradient from either starting corner; and point values of Jacobian, divergence and curl match those of linear fields.",
     ["inputs"],
     "all line sets, fields, planes and reductions",
     "these helpers have no or one-sample tests",
     ["viscid/calculator/calc.py", "viscid/calculator/plasma.py"],
     [("line integrals", "viscid/calculator/calc.py integrate_along_lines / resample_lines"), ("flux function", "viscid/calculator/plasma.py calc_psi"), ("point derivatives", "viscid/calculator/calc.py jacobian_at_point / curl_at_point")])

prop("N09", "Boundary analysis finds the boundary that the data holds",
     "Minimum variance analysis, of a series of vectors or of a field sampled between or around points, gives orthonormal eigenvectors of the covariance of the finite samples in order of increasing variance, and the boundary frame made from them is right handed with its normal along the least variance and l in the plane of the chosen direction, whatever that direction is. A paraboloid fitted to points of a paraboloid is that surface, and its normals are perpendicular to it. Magnetopause information gives for every column of the box the location of least field, edges, width, shear, and maxima that the column's values define, the same when read back from the cache.",
     ["inputs", "configurations"],
     "all series, fields, layouts, l directions, boxes and columns, with and without samples that aren't finite",
     "the one test uses sample data that is not there and loose averages of angles; degenerate directions, masked columns and lost precision are not sampled",
     ["viscid/calculator/minvar_tools.py", "viscid/calculator/mpause.py"],
     [("variance analysis", "viscid/calculator/minvar_tools.py minvar_series, _minvar_lmn_directions"), ("boundary information", "viscid/calculator/mpause.py get_mp_info, find_mp_edges"), ("paraboloid", "viscid/calculator/mpause.py fit_paraboloid, paraboloid_normal")])
prop("N10", "Separator points lie where all topologies meet",
     "Clustering grid points gives one average location for each connected set of neighbors, across periodic boundaries too, and none are lost or invented. Combining the topologies of neighbors, on any map, finds the locations whose surroundings hold all four topologies at the finest level where there are any, and bisecting finds the points where the topologies of a known field meet to the precision of its depth. Neither changes the map, field or options.",
     ["inputs", "configurations"],
     "all maps, sets of points, periodic directions and poles, seed surfaces, depths and perimeter checks",
     "no test calls these functions",
     ["viscid/calculator/cluster.py", "viscid/calculator/separator.py"],
     [("clusters", "viscid/calculator/cluster.py find_clusters"), ("bit-or", "viscid/calculator/separator.py topology_bitor_clusters"), ("bisection", "viscid/calculator/separator.py _get_sep_pts_bisect")])
prop("N11", "Fluid elements follow the velocity field in space and time",
     "Following fluid elements calls back once per time step from start to stop in the direction asked for, with the velocity and extra fields interpolated linearly in time between the surrounding steps and every element moved along that velocity for the time step from where the previous step left it. Seed curators remove, add and replace exactly the elements that their bounds and cadence say. The seeds, fields and options given are unchanged, and the final places are returned.",
     ["inputs", "histories"],
     "all time series, steps, directions, spatial selections and curators",
     "no test runs it; weights of the interpolation and the bookkeeping over steps only show in a log of a run",
     ["viscid/fluidtrace.py", "viscid/dataset.py", "viscid/cython/streamline.pyx"],
     [("main loop", "viscid/fluidtrace.py follow_fluid"), ("curators", "viscid/fluidtrace.py SeedCurator and subclasses")])
# ---------------------------------------------- geometry, time
prop("G01", "Coordinate-system transforms are rotations that compose and match Hapgood",
     "For every time and every pair of geocentric systems the transform is a proper rotation (a fixed x/y flip for the simulation frame), the inverse of the reverse transform and equal to the composition through any third system, and it equals the published formulas for that time. Transforming many vectors equals transforming each, and dipole moments and angles derived from the transform agree with it, including for user-set dipole angles and the no-tilt date.",
     ["inputs", "configurations"],
     "all times 1950-2100, all pairs and triples of systems, user tilt angles, 3- and 4-dimensional matrices",
     "the lookup table has a separate entry per pair; tests check a few pairs at a few times",
     ["viscid/cotr.py"],
     [("transform table", "viscid/cotr.py Cotr.XFORM_LOOKUP"), ("elementary matrices", "viscid/cotr.py Cotr._get_emat")])
prop("G02", "Rotation representations convert consistently and leave inputs alone",
     "Converting a rotation between Euler angles in any axis order and either convention, matrices, quaternions and axis-angle form describes the same rotation as the standard definitions do, singly or in stacks, and converting back gives the same rotation. Applying and multiplying rotations agree between representations, the angle between vectors and the rotation taking one vector to another are correct also for parallel and opposite vectors, and no function changes its arguments.",
     ["inputs"],
     "all rotations including singular ones, all twelve axis orders, units and stack shapes",
     "the module's own checks sample generic angles; degenerate angles and aliasing are missed",
     ["viscid/rotation.py"],
     [("conversions", "viscid/rotation.py"), ("a2b_rot / angle_between", "viscid/rotation.py")])
prop("G03", "Date and elapsed-time conversions are exact and consistent",
     "Converting dates and elapsed times between strings, native objects, numbers and arrays keeps the instant to the finest unit of the target; converting to a common unit keeps values or reports that it cannot, as asked; sums and differences are exact; and formatting a time and reading it back gives the time to the printed precision. Evenly spaced times have the given ends and equal spacing to within one unit.",
     ["inputs"],
     "all representations, units and magnitudes within range",
     "precision loss depends on unit and magnitude combinations",
     ["viscid/npdatetime.py"],
     [("conversions", "viscid/npdatetime.py as_datetime64/as_timedelta64"), ("common units", "viscid/npdatetime.py regularize_time"), ("formatting", "viscid/npdatetime.py format_time")])
prop("G04", "Seed generators place every point where their geometry says",
     "Points of lines, splines, planes, volumes, spheres, caps, circles and patches lie on the stated shape at the stated positions and number, in the order in which the generator's own grid lays out data wrapped on it, so that a function sampled at the points and wrapped has its values at the right grid coordinates. Asking twice, iterating, or asking with caching gives the same points, mesh vertices match the points, and local and global coordinates convert back and forth.",
     ["inputs", "configurations"],
     "all sizes, origins, orientations, angular limits, axis orders and caching modes",
     "tests plot the results; order mismatches show only on asymmetric sizes",
     ["viscid/seed.py"],
     [("generators", "viscid/seed.py")])
prop("G05", "Spherical mapping, dipole fields and footpoint tools invert each other",
     "Synthetic dipole fields equal the analytic formula with the requested moment, strength and orientation at every grid point, converting between cartesian, spherical and latitude-longitude vectors and points is lossless and correct, and following an ideal dipole line by formula keeps its invariant.",
     ["inputs", "configurations"],
     "all tilts, strengths, grids, centers and angular ranges",
     "tests use one tilt and one grid",
     ["viscid/dipole.py", "viscid/mapfield.py"],
     [("dipole", "viscid/dipole.py"), ("mapping", "viscid/mapfield.py")])

# -------------------------------------------------------------- data sets, io
prop("D01", "Time selections of a data set return the right steps in order",
     "A data set's steps are kept in time order whatever order they were added in, and selecting them by index, slice, elapsed time or date gives exactly the steps whose times match: the nearest for a single value, all within the inclusive limits for a range. Counting, listing, iterating and fetching agree with each other, and selecting never changes what a later selection returns.",
     ["inputs", "histories"],
     "all sets of times, insertion orders and selections",
     "tests use three steps and a few selections",
     ["viscid/dataset.py", "viscid/sliceutil.py"],
     [("time selection", "viscid/dataset.py DatasetTemporal._slice_time")])
prop("D02", "What is saved is what is loaded",
     "Fields written to a file in any supported format and read back have the same names, values, coordinates, centering, components and, where the format holds it, time and coordinate system, for every shape, dtype and number of fields, and loading never alters the file.",
     ["inputs", "configurations"],
     "all supported writers, centerings, layouts, dimensions, dtypes and uniform or stretched grids",
     "tests round-trip one field of one shape",
     ["viscid/readers/hdf5.py", "viscid/readers/numpy_binary.py", "viscid/readers/vfile.py", "viscid/readers/xdmf.py"],
     [("writers", "viscid/readers/hdf5.py save_fields, viscid/readers/numpy_binary.py"), ("xdmf reader", "viscid/readers/xdmf.py")])
prop("D03", "Every supported simulation format is decoded to the numbers in the file",
     "Reading a well-formed file of a supported simulation format gives each variable exactly the values, coordinates, axis order, component assignment, time and centering that the file encodes, for all shapes and numbers of blocks or steps. Steps and files belonging together are grouped into one data set in time order, and unrelated files are kept apart.",
     ["inputs", "configurations"],
     "all shapes, number of variables, steps, patches and byte values representable in each format",
     "tests read one fixed sample of each format and compare a plot or one sum",
     ["viscid/readers/athena_bin.py", "viscid/readers/athena_tab.py", "viscid/readers/gkeyll.py", "viscid/readers/vpic.py", "viscid/readers/xdmf.py", "viscid/readers/ascii.py", "viscid/readers/openggcm.py"],
     [("readers", "viscid/readers/")])
prop("D04", "Compressed simulation output is decoded exactly",
     "The run-length-encoded text format decodes to the values that were encoded, within its stated quantisation, for all values, signs, magnitudes, run lengths and array sizes, and every variable of a file is found by name regardless of the order of access. Damaged files raise an error instead of returning wrong data or ending the process.",
     ["inputs", "histories", "fault_sequences"],
     "all arrays representable in the format, access orders and truncation points",
     "tests decode one sample file",
     ["viscid/readers/ggcm_jrrle.py", "viscid/readers/_jrrle.f90", "viscid/readers/_fortfile_wrapper.py"],
     [("decoder", "viscid/readers/_jrrle.f90"), ("file index", "viscid/readers/ggcm_jrrle.py")])
prop("D05", "File and item registries hand back the item each handle names",
     "After any sequence of adding, re-adding, loading, reloading, referencing and removing, a registry returns for each handle the item last registered under it, reports exactly the items still held, keeps insertion order when asked to, and drops an item when its last reference goes. Loading a file that is already loaded returns the same object, and dropping cached data and reading again gives the same values.",
     ["histories"],
     "all operation sequences on registries and loaded files",
     "the state space is the sequence of operations, tests run one short sequence",
     ["viscid/bucket.py", "viscid/readers/vfile_bucket.py", "viscid/readers/vfile.py", "viscid/grid.py"],
     [("bucket", "viscid/bucket.py Bucket"), ("file bucket", "viscid/readers/vfile_bucket.py"), ("lazy data", "viscid/field.py Field._resolve")])
prop("D06", "User equations evaluate to the numpy result and literals to their value",
     "An equation over a grid's fields evaluates at every point to the value the same numpy expression has for those fields, with either evaluation engine, under any field names, and is refused unless enabled. Option strings parse to the python value they denote, metadata written as text (with comments and trailing commas, too) reads back equal, and settings files set exactly the attributes they name.",
     ["inputs", "configurations"],
     "all expressions over the supported operators and functions, and all literal values",
     "tests evaluate one expression",
     ["viscid/calculator/evaluator.py", "viscid/pyeval.py", "viscid/vjson.py", "viscid/_rc.py", "viscid/grid.py"],
     [("evaluator", "viscid/calculator/evaluator.py"), ("literal parser", "viscid/pyeval.py"), ("json", "viscid/vjson.py"), ("settings", "viscid/_rc.py")])
prop("D07", "Nodes of a data tree answer with the nearest information and own children",
     "Files, data sets, steps, grids and fields form a tree in which information, attributes, coordinate systems and transforms asked of a node come from the nearest node on the way up that holds them, a missing one raises or gives the default asked for, and asking changes nothing. Fields made from fields know what their sources know, and what is set on them stays with them. After any sequence of adding, deferring, activating and deleting, data sets and grids contain, count, iterate and fetch exactly the children, fields and coordinates that they hold.",
     ["inputs", "histories"],
     "all trees, orders of building them and questions",
     "tests ask single nodes of one file",
     ["viscid/tree.py", "viscid/dataset.py", "viscid/grid.py", "viscid/cotr.py", "viscid/field.py"],
     [("lookup of information", "viscid/tree.py"), ("children", "viscid/dataset.py, viscid/grid.py"), ("as_cotr / as_crd_system", "viscid/cotr.py")])
prop("C01", "Parallel mapping returns serial results in order and passes on failures",
     "Mapping a function over arguments with any number of processes and chunking gives the results of the serial map in order, chunking covers every item exactly once, and a failure in any item is reported to the caller without hanging or corrupting later calls.",
     ["schedules", "inputs", "fault_sequences"],
     "all argument lists, process counts, chunk sizes and failing items",
     "tests run one list; ordering and loss depend on worker timing",
     ["viscid/parallel.py"],
     [("map / chunks", "viscid/parallel.py")])
prop("V01", "Plots show the field's own values at the field's own coordinates",
     "Plotting a two- or one-dimensional field draws each value at its coordinates: the drawn mesh or image has the data in the right orientation, with cell values between the cell's edges, and options that transform the plot (axis swap, equal aspect, log scale, masks) act on what is drawn and leave the field unchanged.",
     ["inputs", "configurations"],
     "all 2-d and 1-d fields, centerings, axes, plot styles and options",
     "tests only write images that nobody compares",
     ["viscid/plot/vpyplot.py"],
     [("plot2d_field / plot1d_field", "viscid/plot/vpyplot.py")])

prop("V02", "Lines get the vertices, colors and connections they were given",
     "Preparing lines for drawing keeps every vertex of every line in order, connects exactly the vertices that follow each other on the same line, and gives each vertex the color or value that was given for all lines, for its line, for itself, or by a field at its place, in every accepted form of names, hex codes, rgb and rgba numbers. Topology codes become the colors their mapping names, or the given color for codes it lacks. The lines and colors given are unchanged.",
     ["inputs"],
     "all sets of lines and all documented forms of colors",
     "tests draw a few lines without looking at what is drawn",
     ["viscid/vutil.py", "viscid/calculator/topology.py"],
     [("prepare_lines", "viscid/vutil.py prepare_lines"), ("colors", "viscid/vutil.py _string_colors_as_hex, viscid/calculator/topology.py topology2color")])
prop("T01", "File tools process exactly the files, items and steps selected",
     "A file pattern with a slice in brackets gives exactly the matching files whose numbers the slice selects, in order, whatever else is in the path; searching a nested mapping by a glob path finds every match and its path, and the first match whenever there is one. Comparing two files exits with the number of fields that differ, converting files of blocks puts every block's values at their place, and plotting a series or a movie handles every selected step exactly once with that step's values.",
     ["inputs", "configurations"],
     "all names, patterns, mappings, pairs of files, block decompositions and time selections",
     "tests do not run the tools and use one pattern",
     ["viscid/vutil.py", "viscid/multiplot.py", "scripts/"],
     [("patterns / paths", "viscid/vutil.py slice_globbed_filenames, resolve_path"), ("series of plots", "viscid/multiplot.py"), ("tools", "scripts/viscid_diff, viscid_ts, viscid_2d, athena2xdmf, fnslice")])

for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    print(json.dumps(p))
