T_HIST = "bounded exhaustive operation-sequence exploration of the real code against a reference model"
T_IN = "bounded exhaustive enumeration of inputs and configurations on the real code against a reference model"

prop("P01", "Identified groups stay consistent under every history of edits",
     """After any sequence of adding, identifying, replacing, removing, copying and selecting items, a group of identified
     items holds its items in insertion order with pairwise distinct non-zero ids, and lookup by id, by position and by
     name return exactly the item held (or report that there is none). Adding items without ids gives them fresh ids above
     every id in use; adding an item whose id is taken is refused and leaves the group as it was. A copied group
     owns its own items, every item is destroyed exactly once, and edits of the copy never show in the original.""",
     ["histories"], "Every sequence of up to the bound of 26 operations on two groups with colliding ids.",
     "Tests exercise single calls; index corruption shows only after particular sequences (replace then look up, refuse then add, remove then reuse an id).",
     ["src/core/group/Identifiable.h", "src/core/group/Group.h", "src/core/class/Identifiable.h"],
     [("id index beside the item list", "src/core/group/Identifiable.h"), ("ownership and ordering of items", "src/core/group/Group.h")], T_HIST,
     "All sequences to depth 4 (quick) or 5 (thorough) over 26 operations on the real groups; compared after every step.",
     [("items", "ordered items held"), ("ids", "index from id to item")])

prop("P02", "A position of a coordinate group names one and the same vertex",
     """After any sequence of adding positions, adding or replacing vertices, removing, moving, scaling and copying, looking a
     vertex of a coordinate group up by position finds a vertex held by the group that is at exactly that position, finds one
     whenever there is one, and finds none otherwise; real and integer positions never answer for each other. Adding a
     position the group already holds returns the existing vertex instead of a duplicate.""",
     ["histories"], "Every sequence of up to the bound of operations over a few colliding positions of both kinds.",
     "The position index is separate state kept beside the vertex list; tests only add and look up once.",
     ["src/core/geometry/coordinate/Group.hpp", "src/core/geometry/coordinate/Group.h", "src/core/geometry/coordinate/Coordinate.h"],
     [("position index", "src/core/geometry/coordinate/Group.hpp"), ("vertex order relation", "src/core/geometry/coordinate/Coordinate.h")], T_HIST,
     "All operation sequences to the depth bound on real groups, compared after each step with a list of positions.",
     [("index", "set of vertices ordered by position")])

prop("P03", "Selections of mesh items return exactly the matching items in order",
     """Selecting elements of a mesh by type, dimension, material, layer, vertex or bounding region returns exactly the elements
     that match, each once, in the order in which the mesh holds them, and so does removing, re-tagging or partitioning by
     material and layer. The box around a group of elements is the smallest one containing each of them and the closest-vertex
     query returns a vertex at the least distance.""",
     ["inputs", "histories"], "Every small mesh content (types, layers, materials) and every query on it.",
     "The selection functions filter over products of type, layer and material, of which tests sample one or two.",
     ["src/core/geometry/element/Group.h", "src/core/geometry/element/Group.hpp", "src/core/group/Group.h"],
     [("filters", "src/core/geometry/element/Group.h"), ("generic groups", "src/core/group/Group.h")], T_IN,
     "All element lists to the bound, each query compared with a brute-force filter.")

prop("P04", "Copies of meshes and of whole problems are complete and independent",
     """A copy of a mesh (of any kind) or of a whole problem description has the same contents as the original, and every vertex,
     layer, material or mesh item reached from the copy belongs to the copy. Changing or destroying either one never
     affects the other, and copying over an existing one, itself included, gives the same result as copying to a new one.""",
     ["inputs", "histories"], "Every combination of element type, layer, material, source, output request and way of copying within the bound.",
     "Tests copy one or two fixed meshes and compare counts; a pointer left into the original shows only when the original is gone.",
     ["src/core/Data.cpp", "src/core/geometry/mesh/Geometric.cpp", "src/core/geometry/mesh/Structured.cpp", "src/core/geometry/mesh/Unstructured.cpp", "src/core/geometry/element/Group.hpp"],
     [("re-binding of references after a copy", "src/core/Data.cpp"), ("re-binding of vertices and layers", "src/core/geometry/mesh/Unstructured.cpp")], T_IN,
     "Full product of contents and copy paths, with mutation and destruction of either side under AddressSanitizer.")

prop("P05", "Meshes survive conversion between grid cells and real space",
     """Converting a structured mesh to an unstructured one and back gives the same grid, vertices, elements, ids, layers and
     materials, and each converted vertex lies at the position of its grid index, displaced inside its cell where it says so. Of a real mesh,
     exactly the elements that lie on the grid are converted, with the same ids, layers, materials and vertices at the nearest
     grid lines; the others are left out, and an element converted onto given vertices takes those with its ids or is refused, naming the
     one missing or elsewhere. The converted mesh refers to nothing of the mesh it came from, which is unchanged.""",
     ["inputs"], "Every grid and element set within the bound, converted both ways.",
     "Conversion depends on grid spacing, vertex kind and element type together; tests convert one regular grid.",
     ["src/core/geometry/mesh/Structured.cpp", "src/core/geometry/mesh/Unstructured.cpp", "src/core/geometry/Grid.hpp", "src/core/geometry/coordinate/Relative.cpp", "src/core/geometry/coordinate/Conformal.cpp"],
     [("structured to unstructured", "src/core/geometry/mesh/Structured.cpp"), ("unstructured to structured", "src/core/geometry/mesh/Unstructured.cpp")], T_IN,
     "All grids and element sets to the bound; both directions compared.")

prop("P06", "A grid locates every point in the one cell that contains it",
     """For every rectilinear grid, the cells partition the grid's region: every point inside is located in the one cell whose
     bounds contain it, every point outside is reported as such, and cell index and position convert into each other without
     loss. Steps, sizes and bounds agree with the line positions, a grid built from a box and steps covers the box with no cell to spare, and scaling,
     adding steps to or enlarging a grid keeps its old lines and all of that true. A point within one per cent of a cell from a line counts as on it.""",
     ["inputs", "histories"], "Every small grid with uneven lines and every point on a lattice finer than its cells, and every short history of grid edits.",
     "Boundary cells, uneven spacing and rounding tolerances interact; tests use one or two grids.",
     ["src/core/geometry/Grid.hpp", "src/core/geometry/Grid.h"],
     [("cell search", "src/core/geometry/Grid.hpp"), ("grid construction from a box and steps", "src/core/geometry/Grid.hpp")], T_IN,
     "All grids over a set of step patterns and all query points on a finer lattice.")

prop("P07", "Boxes behave like the sets of points they stand for",
     """Uniting, intersecting, comparing, extending, scaling, converting and splitting axis-aligned boxes gives the boxes expected of the sets
     of points they represent: a union is the smallest box holding both, an intersection holds exactly the common points, and
     containment and equality agree with that. The pieces a box is split into cover it exactly and do not overlap.""",
     ["inputs"], "Every pair of boxes and points on a small lattice, and every split of every small box.",
     "Laws over pairs of boxes of every degeneracy; tests use isolated examples.",
     ["src/core/geometry/Box.h", "src/core/geometry/Box.hpp"],
     [("box algebra", "src/core/geometry/Box.h")], T_IN, "All pairs of boxes on a lattice against set semantics.")

prop("P08", "Mesh connectivity and coordinate graphs reflect the mesh exactly",
     """For every face of every volume of a mesh, the connectivity reports as its other side exactly a face of another volume
     with the same vertices, and none exactly when there is none (that face is then on the domain boundary); the surface reported for
     a face is one with exactly its vertices; a surface's inner face is the face of a volume with its vertices, of two the one whose side
     normal is the surface's; its outer face is the one across, and a surface with fewer than two volumes is on the boundary; connectivities are reciprocal exactly when no face has more than two volumes. The graph of an element set joins each element to
     exactly its coordinates, has as neighbours exactly the elements (coordinates) that share a coordinate (an element), and its connected parts are the
     components of that relation; splitting a coordinate gives each of its elements a node of its own and changes nothing else; copies and assigned graphs
     and connectivities are equal to, and independent of, their originals.""",
     ["inputs"], "Every small complex of elements over a shared vertex set.",
     "Adjacency is a relation over all pairs of faces; tests use a few hand-made meshes.",
     ["src/core/geometry/graph/Connectivities.cpp", "src/core/geometry/graph/Graph.hpp", "src/core/geometry/graph/Vertices.hpp"],
     [("face matching", "src/core/geometry/graph/Connectivities.cpp")], T_IN, "All complexes to the bound, against brute force adjacency.")

prop("P09", "Elements report geometry consistent with their vertices",
     """For every element, its counts, vertices, sides, bounds, first and last vertex, volume or area, normals, inner-point
     tests, and whether it is flat, rectangular, regular, curved or lies in a coordinate plane agree with the positions of its
     vertices. Tetrahedra without volume and open polyhedra are refused; an element built from a box has the corners of the box
     and reuses vertices that exist; replacing a vertex shows in all of these, a refused
     replacement changes nothing, and copies equal the original.""",
     ["inputs"], "Every element type over every placement of vertices on a small lattice within the bound.",
     "Each element type has hand-written tables of vertices per face; tests cover a few types in one position.",
     ["src/core/geometry/element/Element.cpp", "src/core/geometry/element/Tetrahedron4.cpp", "src/core/geometry/element/Hexahedron8.h", "src/core/geometry/element/Triangle3.cpp", "src/core/geometry/element/Quadrilateral4.h", "src/core/geometry/element/Surface.h"],
     [("face tables", "src/core/geometry/element/Tetrahedron4.cpp")], T_IN, "All types and vertex placements to the bound against independent formulas.")

prop("P10", "Reference-element bases are exact for the polynomials they span",
     """For each simplex (line, triangle, tetrahedron) and order, shape functions are one at their own node, zero at every
     other, sum to one and reproduce every polynomial up to the order; their derivatives are the derivatives of those polynomials, and
     quadrature points and weights integrate every polynomial up to the order exactly. The nodes listed for each face and corner
     are exactly those lying on it.""",
     ["inputs"], "Every supported simplex and order and every node.",
     "Exactness over all orders, nodes and monomials; tests check totals of a few.",
     ["src/core/math/simplex/Line.h", "src/core/math/simplex/Triangle.h", "src/core/math/simplex/Tetrahedron.h", "src/core/math/simplex/Simplex.cpp"],
     [("Lagrange basis", "src/core/math/simplex/Simplex.cpp")], T_IN, "All orders, nodes, monomials.")

prop("P11", "Vector and matrix operations obey exact linear algebra",
     """Vector and matrix arithmetic, products, transposes, determinants and inverses agree with the definitions for every
     operand, leave their operands unchanged, and reordering or searching rows and columns permutes or finds exactly what
     is there; a singular matrix is refused by inversion with an error. Operations on the same object, such as adding a vector
     to itself, give the same result as on a copy. Comparison, ordering and rounding of numbers and vectors agree with
     the order of the numbers.""",
     ["inputs"], "Every small integer-valued operand of each shape within the bound.",
     "Algebraic laws quantify over operands; tests compute a few fixed products.",
     ["src/core/math/matrix/Matrix.hpp", "src/core/math/matrix/Static.hpp", "src/core/math/matrix/Dynamic.hpp", "src/core/math/vector/Cartesian.hpp"],
     [("matrix kernels", "src/core/math/matrix/Static.hpp")], T_IN, "All small operands against direct definitions.")

prop("P12", "Polynomials, interpolations and signals evaluate to what they define",
     """A polynomial built from monomials evaluates, multiplies, differentiates, compares and copies like the polynomial it stands for.
     An interpolated function, built from samples or read from a file, passes through its samples, is linear between them, holds
     the end values outside and refuses to be evaluated without data; a file with anything but pairs of numbers is refused. The
     Gaussian (with delay and carrier) and band-limited signals match their formulas and the Gaussian its Fourier transform.""",
     ["inputs", "histories"], "Every small polynomial, sample table and evaluation point within the bound.",
     "Cancellation and ordering of terms depend on histories of additions; tests evaluate one function.",
     ["src/core/math/function/Polynomial.hpp", "src/core/math/function/LinearInterpolation.h", "src/core/math/function/Gaussian.cpp"],
     [("term bookkeeping", "src/core/math/function/Polynomial.hpp")], T_IN, "All polynomials and tables to the bound against coefficient maps.")

prop("P13", "Local axes, spherical and fractional coordinates describe the same points",
     """Converting from a local axis to global coordinates is the rotation by the axis' three Euler angles followed by the
     shift to its origin: it keeps lengths, angles and handedness, axes with opposite angles undo each other, the default axis changes
     nothing, and tensors transform consistently with vectors. Spherical and Cartesian forms of a vector agree, the zero vector
     included, as do vector fields expressed in them. A fractional cell index always denotes the same point however it is reduced,
     and moving it to the nearest grid node, joining and comparing it follow that point.""",
     ["inputs"], "Every axis, angle and vector of a lattice.",
     "Group laws over all axes and angles; no existing test composes them.",
     ["src/core/math/axis/Local.cpp", "src/core/math/vector/Spherical.cpp", "src/core/math/vector/CVecI3Fractional.cpp"],
     [("rotation matrices", "src/core/math/axis/Local.cpp")], T_IN, "All axes, angles, vectors on a lattice.")

prop("P14", "Command lines are parsed as the declared arguments say",
     """For every declared set of positional arguments, options, switches and groups and every command line, the parser yields exactly
     the values given (with defaults for absent ones), returns unknown arguments in order, and rejects a missing required
     argument, a missing value, a forbidden choice, or a violated exclusive or required group. Parsing the same line again gives
     the same result.""",
     ["programs", "inputs", "histories"], "Every declaration and command line over a small token alphabet, up to a length bound.",
     "The parser is a state machine over token sequences; tests try a handful of lines.",
     ["src/core/argument/Parser.cpp", "src/core/argument/GroupBase.cpp", "src/core/argument/StringParser.h", "src/core/argument/Object.h"],
     [("token state machine", "src/core/argument/Parser.cpp")], T_HIST, "All declarations and token sequences to the bound against a reference parser.")

prop("P15", "Settings trees keep what was put in and nothing else",
     """After any history of setting, replacing, adding to and erasing members and array items, a settings tree holds exactly the
     values last stored: each value is read back as stored, other members are untouched and copies are independent.""",
     ["histories"], "Every history of operations on a small tree to the bound.",
     "Name and position indexes are kept beside the values and diverge only after particular histories.",
     ["src/core/argument/Object.h", "src/core/argument/Object.hpp"],
     [("member index", "src/core/argument/Object.h")], T_HIST, "All histories to the bound against a reference tree.")

prop("P16", "A problem file is read into exactly the problem it describes",
     """Reading a problem file yields exactly the vertices, elements, layers, materials, connectors, sources, output requests, grid
     and solver and mesher options it declares, with the ids, names (blanks of layer names become underscores), positions,
     orders of vertices, angles converted from degrees, lengths multiplied by the geometry scaling factor (those of the grid, of
     the boxes of sources and requests and of the ports included) and parameters written there, and with every reference resolved to the
     item named, whatever the order of the keys and the blanks between them."""
     ,
     ["inputs"], "Every document of a bounded grammar of problem files.",
     "Each reader handles a tag vocabulary; tests load six files and compare counts.",
     ["src/parser/json/Parser.cpp", "src/parser/json/Parser.h", "src/core/parser/Parser.cpp"],
     [("section readers", "src/parser/json/Parser.cpp"), ("scaling of what was read", "src/core/parser/Parser.cpp")], T_IN, "All documents of the grammar to the bound, written as text, read by the real parser and compared field by field.")

prop("P17", "A damaged problem file is refused without crashing",
     """Reading a problem file in which any one entry is missing, repeated, of the wrong type, out of range, misspelt or referring
     to something that does not exist ends in a reported error, in a problem without that entry (without the geometry, when it is the
     geometry which is damaged) or in exactly what the altered text still declares; never in a value nobody wrote, a
     reference to something that is not of the problem, a crash, a hang or a read of memory it does not own. A truncated file is
     refused.""",
     ["inputs", "fault_sequences"], "Every single damage (removal, repetition, swap, retyping, respelling, dangling reference, truncation) of each reference document.",
     "The set of damages is far larger than the tests' list of good files.",
     ["src/parser/json/Parser.cpp", "src/parser/json/Parser.h"],
     [("section readers", "src/parser/json/Parser.cpp"), ("readers of element lines and of lists of ids", "src/parser/json/Parser.h")], "exhaustive single-fault enumeration over documents on the real parser",
     "All single damages of each reference document under AddressSanitizer.")

prop("P18", "Triangle files are read as exactly the facets they contain",
     """Reading an STL text file yields one triangle per facet, in file order, with the corner positions and corner order written
     there, corners at equal positions are one shared vertex, each solid is its own layer carrying the solid's name, every triangle
     is a perfect conductor, and a malformed or truncated file is refused by an exception; line ends, indentation and spacing
     do not matter.""",
     ["inputs"], """Every file of up to two facets over a pool of corner spellings; every distribution of up to nine facets over three solids,
     names and layouts; every truncation and lost, doubled, replaced, added or swapped word or line of a set of files.""",
     "Tests load a single file.", ["src/parser/stl/Parser.cpp"],
     [("facet reader", "src/parser/stl/Parser.cpp")], T_IN, "All files of the grammar to the bound and each truncation.")

prop("P19", "Visualisation files contain the whole problem",
     """An exported problem is a collection file listing one well-formed unstructured-grid file for each non-empty part: every
     layer and material (every layer, when the problem has no materials), every source and output request, and for a structured mesh
     each of its boundaries and the grid lines on its three lower faces. Every part has a file of its own, whatever the names, and
     holds exactly its elements (nodes, lines, polylines, triangles, quadrilaterals, polygons, tetrahedra and hexahedra; quadratic
     ones by their corners) as cells of their kind with their vertices in order at their positions. Files that cannot be
     written are reported, and exporting does not change the problem.""",
     ["inputs", "configurations"], "Every small problem, written and read back by an independent reader.",
     "Tests only check that files exist.", ["src/exporter/vtk/Exporter.cpp", "src/core/exporter/Exporter.cpp"],
     [("cell export", "src/exporter/vtk/Exporter.cpp")], T_IN, "All small problems exported and re-read.")

prop("P20", "Post-processing mesh files contain the whole problem",
     """A problem exported as post-processing mesh, as text or binary, has every element of each layer and material, source and output
     request (nodes, lines, triangles, quadrilaterals, tetrahedra and hexahedra; quadratic ones by their corners; polylines and polygons
     are not covered) in meshes named after them, with its vertices in order at their positions (with the geometry scaling factor of
     the solver taken back), and for a structured mesh its grid lines and each of its sides, named after its boundary or as undefined.
     Vertices and elements are numbered without repetition, also with several exporters open at once; files that cannot be
     written are reported, and exporting does not change the problem.""",
     ["inputs", "configurations"], "Every small problem, written and read back by an independent reader.",
     "Tests only check that files exist.", ["src/exporter/gid/Exporter.cpp", "src/core/exporter/Exporter.cpp"],
     [("element export", "src/exporter/gid/Exporter.cpp")], T_IN, "All small problems exported and re-read.")

prop("P21", "Material models keep their parameters and derive consistent ones",
     """Each material model (volume, layered, surface, wire, multiport, boundary, gap) reports the parameters it was given, its name and
     identifier, also after being copied, renamed, assigned, numbered again or put in a group. A simple volume derives permittivity,
     permeability, impedance, admittance and whether it is vacuum by their physical definitions; a dispersive one its
     static conductivity, poles and classification; crystals and ferrites their tensors turned by their axes; an absorbing layer its axis;
     a wire with ends keeps each end under any sequence of setting, swapping and copying. Layers of non-positive permittivity or
     permeability, more than one table of fitting options, files missing or of another kind and magnetic dispersion are refused.""",
     ["inputs", "histories"], "Every model and parameter combination of a lattice.",
     "Parameter domains combine; tests construct one instance each.",
     ["src/core/physicalModel/volume/Classic.cpp", "src/core/physicalModel/volume/Dispersive.cpp", "src/core/physicalModel/wire/Wire.cpp", "src/core/physicalModel/surface/Multilayer.cpp", "src/core/physicalModel/multiport/RLC.cpp"],
     [("derived quantities", "src/core/physicalModel/volume/Classic.cpp")], T_IN, "All models over a parameter lattice.")

prop("P22", "Sources define physical fields",
     """A plane wave, given by vectors or by angles, has its electric field along its polarization following its magnitude in time, and
     electric field, magnetic field and direction mutually orthogonal with the free-space impedance ratio; vectors that are zero or not
     perpendicular are refused and the angles read back give the same directions; a rectangular waveguide port has the profile of its
     mode (up to sign) with no tangential electric field on its walls, over the box of its elements also after retargeting or adding; a
     coaxial port is radial (one volt between its conductors) or goes around its origin (one ampere); ports not in a plane of constant z, or
     of mode 0,0, are refused. Sources of every kind keep targets, magnitude and parameters through copying, grouping and retargeting;
     magnitudes evaluate, copy and compare as their function; one exported to a file has the original's values at every sampled
     time up to the final one, which it reaches.""",
     ["inputs", "histories"], "Every direction, polarisation, mode and position of a lattice.",
     "Field laws hold over continuous parameters; tests evaluate one or two points.",
     ["src/core/source/PlaneWave.cpp", "src/core/source/port/WaveguideRectangular.cpp", "src/core/source/port/TEMCoaxial.cpp", "src/core/source/magnitude/Magnitude.cpp"],
     [("field evaluation", "src/core/source/PlaneWave.cpp")], T_IN, "All parameters on a lattice against the field equations.")

prop("P23", "Output requests ask for exactly the samples configured",
     """A sampling domain reports the times, frequencies, sweep and transfer function configured (a file only when one is used),
     derives its kind from which of time, frequency and transfer function are asked for, and equals another exactly when all
     of these agree. An output request keeps its type, name, targets and domain, a bulk current its direction and skip and a far field its angles,
     through renaming, retargeting, changes of domain, copying and grouping, and copies are independent of each other. A generic request for
     bulk currents over elements that have a material is refused.""",
     ["inputs", "histories"], "Every domain and request configuration within the bound.",
     "The kind is derived from eight flags; tests set one or two.",
     ["src/core/outputRequest/Domain.cpp", "src/core/outputRequest/OutputRequest.cpp", "src/core/outputRequest/FarField.cpp"],
     [("domain kind", "src/core/outputRequest/Domain.cpp")], T_IN, "All configurations.")

prop("P24", "Solver and mesher options are read as given",
     """Solver and mesher options hold exactly the values given by the settings they were read from, whatever their order, keep
     their defaults (or earlier values) for those absent, and reject unknown choices, values of the wrong type and negative step
     counts. A number of time steps takes precedence over a final time, the number of steps is the least that reaches the final
     time, and solver arguments carry exactly the options that are not default. Boundary terminations, copied options and
     joined solver settings keep every value.""",
     ["configurations"], "Every subset and value of the options within the bound.",
     "Tests set one configuration.", ["src/solver/Options.cpp", "src/mesher/Options.cpp"],
     [("option tables", "src/mesher/Options.cpp")], T_IN, "All subsets and values.")

prop("P25", "Project paths split and rejoin without loss",
     """For every path, folder and base name together lead to that path again, and project name and extension make up the base name
     (the extension starts at its last dot, unless that is its first character); a path made relative to a folder rejoins with it; one
     outside the folder stays as it is; queries tell whether the path is a folder, can be opened or executed, and its full
     path, and change nothing. Making, deleting and changing to a folder, opening a file and executing it act on exactly what the path
     names, whatever characters it is written with, and on nothing else (links are not followed when deleting); failures to
     make, open, execute or resolve are reported.""",
     ["inputs", "fault_sequences"], "Every path over a small alphabet, present, absent, file or folder.",
     "Dots, slashes and missing parts combine; tests use one path.",
     ["src/core/filesystem/Project.cpp"], [("path splitting", "src/core/filesystem/Project.cpp")], T_IN, "All paths to the bound in a scratch folder.")

prop("P26", "Wires are grouped into the networks the mesh draws",
     """Grouping puts every line of a wire or connector material in exactly one wire; where exactly two lines meet they are of the same wire
     when they have the same layer and wire material and one arrives where the other leaves, or when one is a
     connector arriving at the other, a wire without ends of its own; where layers or wire materials differ, directions oppose or
     more than two meet, they are of different wires. Each wire is a polyline through its lines one after another in the direction of its
     wire lines, with the layer of the lines, telling which lines run against it, and has a material of its own with the parameters of its
     lines, numbered names and the connectors as ends on the side they are attached to (a material with ends keeps its own). A connector
     attached to no wire is refused, none of this depends on the order of the lines, and the problem is not changed.""",
     ["inputs"], "Every small network of wire segments within the bound.",
     "Connectivity and order interact; tests draw one example.",
     ["src/core/util/wire/Group.hpp", "src/core/util/wire/Group.h", "src/core/geometry/graph/Graph.hpp"],
     [("wire grouping", "src/core/util/wire/Group.hpp")], T_IN, "All networks to the bound against the joining rules.")

prop("P27", "Usage, help and refusals of command lines name the declared arguments",
     """For every declared set of arguments and groups, the usage names each argument once, in order (positions, options, groups), with its
     identifier (the short one when there is one) and value names (its name in capitals when none are given), repeatable ones as such,
     optional ones in brackets and exclusive ones as alternatives; the help adds for each its help text with program name, default
     and choices filled in, group names and descriptions, and the parser's description and epilog, all of it broken between words only,
     as late as the width of the console (80 columns when output is no console) allows, and continued under where it began. Refusing a
     line shows the usage and reports the argument at fault, or exactly the unknown, ambiguous or mutually exclusive ones, or those one
     of which is required. Copies of arguments declare the same argument.""",
     ["inputs"], "Every set of arguments to the bound, in every group, on consoles of every width to the bound.",
     "Wrapping, groups and texts combine; tests print one help text without looking at it.",
     ["src/core/argument/Formatter.cpp", "src/core/argument/Parser.cpp", "src/core/argument/GroupBase.cpp", "src/core/argument/MultiSwitch.cpp"],
     [("usage and help", "src/core/argument/Formatter.cpp"), ("refusals", "src/core/argument/GroupBase.h")], T_IN, "All declarations and widths to the bound against a reference text.")


prop("P28", "The GUI front end writes exactly the problem it was given",
     """Whatever is answered in the questionnaires of the GiD front end and drawn with it, the problem it writes is accepted by the library and
     read as exactly the options, models, layers, coordinates, elements, grids, sources and output requests answered and drawn, none
     lost, merged or altered, and writing it again gives the same text. Which questions can be answered depends only on the
     answers given, not on how they were reached. The bounding box drawn is that of the layers enlarged by the paddings, and the launcher
     runs the solver once on the project whatever its name, with output and errors in the log files.""",
     ["inputs", "histories"], "Every pair of answers, and every small drawing, within the bound.",
     "No test touches the front end; templates, scripts and questionnaires only meet when a problem is written.",
     ["gui/gid/semba.gid/semba.bas", "gui/gid/semba.gid/semba.tcl", "gui/gid/semba.gid/semba.prb", "gui/gid/semba.gid/semba.cnd", "gui/gid/semba.gid/semba.mat", "gui/gid/semba.gid/semba.unix.bat"],
     [("problem written", "gui/gid/semba.gid/semba.bas"), ("procedures", "gui/gid/semba.gid/semba.tcl")], T_IN, "All answers and drawings to the bound, templates and scripts run without GiD.")
