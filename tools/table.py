P("P01", "Tolerant comparison and rounding of numbers obey their ordering laws",
  "For any two numbers exactly one of lower, equal and greater holds under the same scale and tolerance, the remaining comparisons are the matching combinations of these three, and equality is reflexive and symmetric. Values closer than the tolerance relative to their scale are equal, values further apart or of opposite sign are not, and values below the zero threshold are all equal to zero and to nothing else. Rounding always returns a nearest integer (ties upwards), is monotone and leaves integers alone, and tolerant ceiling returns an integer that undershoots the value only within the given slack.",
  ["inputs"], "all pairs (or triples) of real operands within +-1e6, every scale and tolerance in range",
  "Tests compare a few constants; the laws quantify over all operand pairs including the boundary of the tolerance band and the zero threshold.",
  ["src/core/math/util/Real.cpp", "src/core/math/util/Real.h"], [("equal/lower/greater", "src/core/math/util/Real.cpp"), ("round/ceil/sign", "src/core/math/util/Real.cpp")])
P("P02", "Vector algebra, ordering and in-cell fractional positions are consistent",
  "Componentwise arithmetic, dot and cross product, norm, in-place variants, integer/real conversion and axis or plane classification agree with their definitions for every vector. The ordering of vectors is lexicographic and total and agrees with equality. A structured position with in-cell fractions always denotes the same point after normalisation, ends with every fraction inside the cell, and collapsing it to a lower dimension moves exactly the coordinate nearest to a node.",
  ["inputs"], "all vectors with bounded components, all pairs and triples of them, all cells and fractions",
  "Tests use a handful of literal vectors; ordering totality and normalisation must hold for every pair and every fraction next to the cell boundary.",
  ["src/core/math/vector/Cartesian.hpp", "src/core/math/vector/CVecI3Fractional.cpp"], [("Cartesian operators", "src/core/math/vector/Cartesian.hpp"), ("reduceCoords/reduceTopology", "src/core/math/vector/CVecI3Fractional.cpp")])
P("P03", "Matrix algebra agrees with its definitions for every matrix",
  "Sums, scalings, products, transposes, determinants, row and column copies, diagonal fills, symmetrisation and array exports of fixed-size and run-time sized matrices agree with their mathematical definitions for every matrix of compatible shape. A computed inverse times the matrix is the identity and singular matrices are rejected. Convolution and Kronecker products have the defined size and entries, and matrix equality, symmetry and maximum queries are exact.",
  ["inputs"], "all matrices with bounded real entries for every listed shape",
  "Tests use one literal matrix per operation; the identities quantify over all entries and over row swaps during pivoting.",
  ["src/core/math/matrix/Matrix.hpp", "src/core/math/matrix/Static.hpp", "src/core/math/matrix/Dynamic.hpp"], [("products and inverses", "src/core/math/matrix/Static.hpp"), ("run-time sized matrices", "src/core/math/matrix/Dynamic.hpp")])
P("P04", "Sorting, merging, deduplicating and searching matrix rows is exact",
  "Sorting rows yields the same multiset of rows in ascending lexicographic order of the selected columns, including ties; removing repeated rows leaves every distinct row exactly once; merging two sorted matrices yields the sorted union of their rows; searching returns the first row with the key, or the row count when it is absent.",
  ["inputs"], "all matrices of the given sizes with arbitrary (also equal) entries",
  "Order and ties are combinatorial: a fixed example exercises one ordering, the check all of them.",
  ["src/core/math/matrix/Matrix.hpp", "src/core/math/matrix/Dynamic.hpp"], [("quick sort of rows", "src/core/math/matrix/Matrix.hpp"), ("unique/merge", "src/core/math/matrix/Dynamic.hpp")])
P("P05", "Polynomials and simplex interpolation bases are exact",
  "Evaluating, multiplying, joining and deriving polynomials agrees with the algebra of polynomials for all coefficients and evaluation points, and cleaning removes exactly the null monomials. Lagrange bases on lines, triangles and tetrahedra are 1 at their own node and 0 at the others, sum to one, reproduce positions, have matching derivatives, and their weights integrate every polynomial of the order exactly; node, vertex and side numbering is consistent with the barycentric indices.",
  ["inputs"], "all coefficients, powers and evaluation points in range; element orders up to 4 (line), 3 (triangle), 2 (tetrahedron)",
  "Partition of unity and exact integration are identities over a continuum of points and coefficients.",
  ["src/core/math/function/Polynomial.hpp", "src/core/math/simplex"], [("polynomial algebra", "src/core/math/function/Polynomial.hpp"), ("Lagrange bases", "src/core/math/simplex/Simplex.cpp"), ("numbering", "src/core/math/simplex/Tetrahedron.hpp")])
P("P06", "Local axes are rigid rotations and spherical conversion round-trips",
  "The transformation of local axes is the product of the three Euler rotations, is orthonormal and keeps handedness; converting points keeps distances and maps the local origin to the stored origin; converting tensors is consistent with converting vectors. Converting a Cartesian vector to spherical form and back returns it (the null vector included), angles stay in their principal ranges, and spherical field components convert to a Cartesian field of the same magnitude with the right radial, polar and azimuthal parts.",
  ["inputs"], "all angles, points, tensors and vectors in range",
  "Identities over continuous angles; tests fix a few angles.",
  ["src/core/math/axis/Local.cpp", "src/core/math/vector/Spherical.cpp"], [("Euler rotation", "src/core/math/axis/Local.cpp"), ("conversion", "src/core/math/vector/Spherical.cpp")])
P("P07", "Time functions, tables and transforms evaluate to their definitions",
  "Interpolation tables return their samples, are linear between neighbouring samples and constant outside, whatever the insertion order and also when read from a file; Gaussian and band-limited signals follow their formulae and are symmetric about their delay, invalid bands are rejected; the analytic and the sampled Fourier transform use the same convention, and the sampled one is the defined linear sum; linear and logarithmic spacings hit both ends evenly; means and sums are exact. Equality compares every parameter and clones are equal.",
  ["inputs"], "all parameters, sample tables (any order) and evaluation points in range",
  "Interpolation and symmetry hold for a continuum of times and every sample ordering; tests try five points of one table.",
  ["src/core/math/function/LinearInterpolation.hpp", "src/core/math/function/Gaussian.cpp", "src/core/math/function/BandLimited.cpp", "src/core/math/util/DTFT.cpp"], [("interpolation", "src/core/math/function/LinearInterpolation.hpp"), ("spectrum", "src/core/math/function/Gaussian.cpp"), ("sampled transform", "src/core/math/util/DTFT.cpp")])
P("P09", "Identified groups agree with their identifier index through any history",
  "Through every sequence of additions, removals, replacements, assignments and clears a group lists its members in insertion order, finds every member by its identifier and nothing else, and reports missing identifiers. Null or repeated identifiers are rejected and leave the group as it was; freshly numbered members never collide with present ones. Selections by identifier, position or class return exactly the matching members in group order and share ownership; clones hold equal but distinct members of the same class. Identifiers obey integer order and arithmetic, and names never contain blanks.",
  ["inputs", "histories"], "all operation sequences of the stated length with arbitrary identifiers",
  "The identifier index is kept by hand in each mutating operation; only specific operation orders leave it stale.",
  ["src/core/group/Identifiable.hpp", "src/core/group/Group.hpp", "src/core/class/Identification.hpp"], [("identifier index", "src/core/group/Identifiable.hpp"), ("class filters", "src/core/group/Group.hpp"), ("clone", "src/core/group/Cloneable.hpp")])
P("P10", "Coordinate groups find every coordinate by position through any history",
  "After any sequence of additions, removals, replacements, scalings, assignments and clears, looking up a position in a coordinate group returns a member at exactly that position if and only if there is one, looking up an identifier returns its coordinate, and listing a position returns all coordinates on it. Adding a position that is already present returns the existing coordinate unless overlapping is asked for, and every new coordinate gets a fresh identifier; real and integer coordinates never stand in for one another. Equality of plain, fractional and conformal coordinates compares identifier, position and their extra data, and a fractional coordinate is its cell plus an offset inside it.",
  ["inputs", "histories"], "all operation sequences of the stated length with positions on a small lattice",
  "The position index duplicates the member list and is updated by hand; only specific histories make the two diverge.",
  ["src/core/geometry/coordinate/Group.hpp", "src/core/geometry/coordinate/Coordinate.hpp", "src/core/geometry/coordinate/Relative.cpp", "src/core/geometry/coordinate/Conformal.cpp"], [("position index", "src/core/geometry/coordinate/Group.hpp"), ("equality", "src/core/geometry/coordinate/Coordinate.hpp")])
P("P11", "Grids map between positions, cells and lines exactly and keep their order",
  "Every grid keeps strictly ascending lines per axis whichever way it is built, joined, scaled, cropped, enlarged or padded, and steps, origin, end and cell counts follow from the lines; a box divided by a step has the fewest cells that cover it, rounding aside. A structured position converts to the point at that line plus fraction and back; the cell of a point contains it (tolerantly at the lines), points outside are reported as outside, and lines or centres in a range are exactly those inside it. Additional cells grow at most by the requested ratio and reach the requested boundary; queries about regular or Cartesian grids look at every cell.",
  ["inputs"], "all grids with the stated number of lines, any spacing, and all points in range",
  "Tests use a few regular grids; cell search next to lines and boundaries depends on arbitrary spacings.",
  ["src/core/geometry/Grid.h", "src/core/geometry/Grid.hpp"], [("cell search", "src/core/geometry/Grid.hpp"), ("enlarge", "src/core/geometry/Grid.hpp")])
P("P12", "Boxes behave as sets of points: containment, meet, join, kind and corners",
  "A box holds exactly the points between its sorted bounds; the containment order agrees with point membership, the intersection holds exactly the common points, and the join is the smallest box with both, commutative, associative and idempotent with the empty box as neutral element. Points, lines, surfaces and volumes are told apart exactly, with direction and normal along the right axis and corners enumerated once, going round each face with the documented orientation. Integer and real boxes convert without loss.",
  ["inputs"], "all pairs and triples of boxes and all points in range",
  "Set laws quantify over all relative placements of boxes, including touching and flat ones.",
  ["src/core/geometry/Box.h", "src/core/geometry/Box.hpp"], [("order and meet", "src/core/geometry/Box.hpp"), ("corners", "src/core/geometry/Box.hpp")])
P("P13", "Chopping a box tiles it exactly along the lines of the grid or step",
  "Chopping a box by a grid or by a step yields pieces that lie inside the box, do not overlap, together fill it and keep its dimension, whether or not the grid reaches the box and for real and integer bounds alike. No grid line passes through the inside of a piece, lines at an end of the box save for rounding cut no sliver off, no piece is longer than the step, and chopping an integer box without a step yields its unit cells.",
  ["inputs"], "all boxes, grids with the stated number of lines and the stated steps",
  "An exact cover must hold for every placement of lines relative to the faces.",
  ["src/core/geometry/Box.hpp", "src/core/geometry/Grid.hpp"], [("chop", "src/core/geometry/Box.hpp"), ("lines in range", "src/core/geometry/Grid.hpp")])
P("P14", "Elements keep their topology, extent, measures and side numbering consistent",
  "For every element kind the counts, vertices, faces and sides fit together: sides list coordinates of their own element, run round each face, and the faces of a solid close up with every edge shared by two faces. Bounds and extreme vertices are those of the coordinates; areas, volumes and normals match the geometry; planar, rectangular, regular, curved and inner-point queries answer by geometry. Flat tetrahedra, open polyhedra, boxes of the wrong kind and plain coordinates in conformal lines are refused; elements built from a box reuse the coordinates already present. Equality compares identifier, layer, material, kind and every coordinate; clones, linear versions and faces keep their identity and vertices.",
  ["inputs"], "all positions of the element's coordinates within the stated ranges, each element kind",
  "Side numbering and extents are hand-written tables per element kind and only unusual orientations or positions expose a wrong entry.",
  ["src/core/geometry/element"], [("side tables", "src/core/geometry/element/Tetrahedron4.cpp"), ("quadratic sides", "src/core/geometry/element/Triangle6.cpp"), ("regularity", "src/core/geometry/element/Hexahedron8.cpp"), ("extremes", "src/core/geometry/element/Element.hpp")])
P("P15", "Element and layer groups select, relabel and re-link exactly the right elements",
  "Selecting the elements of a group by material, layer, both, coordinate or enclosing box returns exactly the matching elements in group order, for mutable and constant groups alike, and removing materials keeps all others. Setting a layer or material reaches every element, or just the asked one, and nothing else. Separating by layers puts every element in exactly one list; the index by vertices finds an element in whatever order its vertices are named; the bound of a group is the smallest box with all real and integer elements (everything when empty), and the closest vertex has none closer. Re-linking to other coordinates, layers or materials keeps every identifier. Layer names hold no blanks and layers are found by name.",
  ["inputs"], "all layer and material assignments, coordinates, boxes and positions in range",
  "Selections depend on arbitrary mixes of labels and on relative placements; tests use a couple of hexahedra.",
  ["src/core/geometry/element/Group.hpp", "src/core/geometry/layer"], [("selections", "src/core/geometry/element/Group.hpp"), ("layers", "src/core/geometry/layer/Layer.cpp")])
P("P16", "Conversion between meshes and grids puts everything on its line and back",
  "Turning structured coordinates, fractional and conformal points and elements into space puts each corner exactly on its grid line (plus the fraction of its cell), and turning them back restores identifier, kind, layer, material and cells. A point snaps to the nearest line; an element is structured exactly when it is a box of grid lines, everything else is left out of a structured mesh and nothing else is. Missing or moved coordinates are reported for the right coordinate instead of producing an element. A converted mesh holds each coordinate with its identifier, and its elements point only to its own coordinates and layers.",
  ["inputs"], "all grids with the stated number of lines, all points of an axis and all boxes of the stated sizes",
  "Snapping depends on the position relative to arbitrary spacings; tests convert a handful of boxes.",
  ["src/core/geometry/mesh", "src/core/geometry/element", "src/core/geometry/coordinate"], [("mesh conversion", "src/core/geometry/mesh/Unstructured.cpp"), ("mesh conversion back", "src/core/geometry/mesh/Structured.cpp"), ("element conversion", "src/core/geometry/element/Element.hpp"), ("coordinate conversion", "src/core/geometry/coordinate/Coordinate.hpp")])
P("P17", "Meshes stay self-contained when built, copied, assigned, scaled and re-linked",
  "However a mesh is built, copied, cloned or assigned, also to itself and after the source is gone, it holds the same coordinates, elements, layers, grid and boundary terminations, every element refers only to coordinates and layers of its own mesh, and changing the copy leaves the original alone. Scaling multiplies every position (or the grid) and nothing else. Handing foreign elements over returns the mesh's elements with the same identifiers in order; re-linking materials keeps every identifier; missing ones are reported. A boundary termination is always the one last set, null included, and lives as long as it is referred to. Bounding boxes are those of the elements or of the grid.",
  ["inputs", "histories"], "all assignments of layers and materials, operation pairs and scaling factors within the stated bounds",
  "Dangling or foreign pointers only show up for particular life cycles, after the source is destroyed.",
  ["src/core/geometry/mesh", "src/core/geometry/BoundTerminations.hpp", "src/core/geometry/element/Group.hpp"], [("unstructured", "src/core/geometry/mesh/Unstructured.cpp"), ("structured", "src/core/geometry/mesh/Structured.cpp"), ("geometric", "src/core/geometry/mesh/Geometric.cpp"), ("terminations", "src/core/geometry/BoundTerminations.hpp")])
P("P18", "Connectivity graphs join exactly the elements that share coordinates or faces",
  "The graph of a list of elements has one node per element and one per coordinate, lists the ends of every element in order, and calls two elements neighbours exactly when they share a coordinate; its components are the connected sets, each element once. Splitting a coordinate gives every element there a copy of its own and leaves all neighbour lists consistent. Copies and assignments are independent of their source. Between volumes, the face beyond a face is the one with the same coordinates and leads back; a face without one is the domain boundary. A surface has a face on each side, the inner one looking along its normal, and none where there is no volume.",
  ["inputs", "histories"], "all connectivities, vertex orders, orientations and identifiers within the stated sizes",
  "Matching depends on the order of vertices, identifiers and elements; tests use one small mesh.",
  ["src/core/geometry/graph"], [("vertex graph", "src/core/geometry/graph/Vertices.hpp"), ("components", "src/core/geometry/graph/Graph.hpp"), ("face matching", "src/core/geometry/graph/Connectivities.cpp")])
P("P19", "Materials keep their parameters, derive the right ones and copy independently",
  "Every material keeps the identifier, name and parameters it was given, and copies and clones are equal, of the same kind and independent of their source. Absolute permittivity and permeability, impedance and admittance follow from the relative ones, vacuum is recognised exactly, dispersive materials count their poles and conductivity in order and are classic exactly when only conductive. Anisotropic tensors are the principal ones turned into the stored axes. Magnetic dispersive losses, void layers and repeated fitting options are refused. The ends of a wire are always copies of those last set, exchanged or assigned, also from itself. Selecting materials by kind keeps their order.",
  ["inputs", "histories"], "all parameters in range, every kind of material, and all short histories of changes of the ends of a wire",
  "Ownership and derived values depend on the mix of kinds and on the history; tests build one of a few kinds.",
  ["src/core/physicalModel"], [("dispersive", "src/core/physicalModel/volume/Dispersive.cpp"), ("anisotropic", "src/core/physicalModel/volume/AnisotropicFerrite.cpp"), ("wire ends", "src/core/physicalModel/wire/Extremes.cpp"), ("layers", "src/core/physicalModel/surface/Multilayer.cpp")])
P("P20", "Sources keep their elements and magnitude and excite the field they define",
  "Every source keeps its elements, magnitude and settings through copies, clones and assignments, each with a magnitude of its own, and accepts only elements of its kind. Plane waves accept exactly perpendicular non-null vectors; angles and vectors agree; the electric field is the polarisation times the magnitude and the magnetic field is perpendicular to both in the ratio of vacuum. Numerical magnitudes reproduce their function at each step and stay constant outside, also when read back. Coaxial ports give unit voltage or current round their origin; rectangular waveguides the field of their mode, and ports outside the xy plane are refused.",
  ["inputs", "histories"], "all vectors, angles, magnitudes sampled in a few steps, ports at any integer place, and short life cycles",
  "Fields must be right for every direction, mode and position; tests check two directions and one mode.",
  ["src/core/source"], [("plane waves", "src/core/source/PlaneWave.cpp"), ("numerical magnitudes", "src/core/source/magnitude/Numerical.cpp"), ("waveguides", "src/core/source/port/WaveguideRectangular.cpp"), ("coaxial ports", "src/core/source/port/TEMCoaxial.cpp")])
P("P21", "Settings and command lines give back exactly what was set or typed",
  "A settings object gives back every number, logical, text, list, member and element that was set, of the same type and with all its digits, in the order set; reading it as another type is refused, members exist exactly while set, copies are independent and an object may take the value of one of its members. Shown as text, an object lists everything in it, in order. Merging two objects keeps the members of both and prefers the second. Parsing a command line returns exactly the options, switches, positions and defaults given, in their groups, however they are written or abbreviated; missing, unknown, ambiguous, repeated, excluded or not allowed arguments are refused for their reason, and a refused definition or line leaves the parser usable.",
  ["inputs", "histories"], "all short histories of changes of an object, all values in range, and all command lines of the stated shapes",
  "Settings and command lines are free combinations of kinds, orders and spellings; no unit test covers more than a few.",
  ["src/core/argument"], [("objects", "src/core/argument/Object.h"), ("parser", "src/core/argument/Parser.cpp"), ("values", "src/core/argument/StringParser.h"), ("options", "src/core/argument/Option.h")])
P("P22", "Problems, requests and settings of solver and mesher survive copies unchanged",
  "Output requests keep their name, kind, domain, angles, direction and elements in order, whatever is done with their source, and copies are of the same kind; bulk currents are only accepted off materials. A domain has the type of what was set, and domains are equal exactly when nothing differs. Copies, clones and assignments of a problem have every part of the original and no other, refer only to their own mesh and materials, keep which source and request is on which element, and free what they replace once. Solver and mesher settings are exactly those given, unknown names are refused, and times and steps agree.",
  ["inputs", "histories"], "all kinds of requests and settings with any values, and problems of the stated size copied in every way",
  "Pointers into other problems and lost settings only show up for particular mixes of parts and life cycles.",
  ["src/core/outputRequest", "src/core/Data.cpp", "src/core/solver", "src/solver", "src/mesher"], [("problem", "src/core/Data.cpp"), ("requests", "src/core/outputRequest/OutputRequest.hpp"), ("domain", "src/core/outputRequest/Domain.cpp"), ("solver settings", "src/solver/Options.cpp"), ("mesher settings", "src/mesher/Options.cpp")])
P("P23", "A problem file is read into exactly the problem it describes, or refused",
  "Reading a problem file gives the solver settings, materials, layers, coordinates, elements, grid, connectors, sources and output requests written in it, all of them and no others, with their identifiers, names, kinds, parameters, magnitudes and domains; every element, source and request lies on the coordinates, elements, boxes, layers and materials it names; grids have the lines asked for, padding included; and coordinates and grid are scaled by the factor of the solver. Files of another version, cut short, or with unknown kinds of materials, sources or requests are refused; one whose mesh is missing or broken gives no mesh, sources or requests but keeps the rest.",
  ["inputs", "faults"], "all files of the stated shapes with any values, and one file cut at every place",
  "Each combination of kinds, values, orders and missing parts is a different file; the tests read a few fixed ones.",
  ["src/parser/json"], [("problem", "src/parser/json/Parser.cpp"), ("sources", "src/parser/json/Parser.cpp"), ("grids", "src/parser/json/Parser.cpp")])
P("P24", "An STL file is read into exactly its facets, each in the layer of its solid",
  "Reading an STL file gives a problem with one perfect conductor and a mesh with one triangle of it for every facet, in order, with its corners where the file puts them and in their order, on coordinates of that mesh, and one layer for each solid, with its name and holding its facets only. Spacing, line ends, indentation, blank lines and names made of the words of the format change nothing. Corners as near as wanted never move by more than the tolerance of the reader. A facet without exactly three readable corners, or cut short, is refused; nothing to read gives an empty mesh.",
  ["inputs", "faults"], "all files of the stated shapes with any coordinates, and one file cut at every place",
  "Each arrangement of solids, facets, names and spacings is a different file; the tests read three fixed ones.",
  ["src/parser/stl"], [("reader", "src/parser/stl/Parser.cpp")])
P("P25", "Exported VTK and GiD files hold exactly the elements of the problem",
  "Exporting a problem writes one group for each material in each layer, source, request, termination and grid that has elements, under its name and in a file or mesh of its own, with every one of its elements once, of its kind, on points at its corners with all their digits and in their order, and nothing else. Points and cells are numbered consistently, structured meshes and their faces and grid lines are put in space, and GiD coordinates are in the units the problem was given in. Files are named after the project and refer to each other relatively. Exporting leaves the problem as it was, and GiD files are opened and closed once, in known modes only.",
  ["inputs", "histories"], "all small meshes of every kind of element, layer and material, any coordinates and grids, and up to two exporters at a time",
  "Numbering and grouping depend on which elements share corners, names and kinds; no test exports anything.",
  ["src/exporter", "src/core/exporter"], [("VTK", "src/exporter/vtk/Exporter.cpp"), ("GiD", "src/exporter/gid/Exporter.cpp"), ("faces and grid", "src/core/exporter/Exporter.cpp")])
P("P26", "Lines of wires are grouped into whole wires with the right ends",
  "Grouping the lines of a problem gives one wire for each maximal chain of lines with wire or connector materials: every such line is in exactly one wire, other lines in none. Lines are parted where three or more meet, where layers or wire materials differ or where directions clash; a connector goes with the wire it points at. The wire runs along its lines, through their coordinates, in the direction of its wire material, tells which lines are turned round, keeps their layer, and has a material and name of its own, a copy of that of its lines with the connector of each end at that end. Connectors without a wire are refused.",
  ["inputs"], "all small networks of wires, wires with ends of their own and connectors in any direction, order and layer",
  "The wire found depends on directions, order and numbering of lines meeting at a point; there is no test of it.",
  ["src/core/util/wire/Group.hpp", "src/core/geometry/graph/Vertices.hpp", "src/core/physicalModel/wire/Extremes.cpp"], [("parting lines", "src/core/util/wire/Group.hpp"), ("wires and turned lines", "src/core/util/wire/Group.hpp"), ("ends", "src/core/physicalModel/wire/Extremes.cpp")])
P("P27", "Paths of projects are split, joined and related exactly; folders stay safe",
  "The base name of a path is its last component, its folder is all before it ending in a slash, the extension starts at the last dot of the base name unless that is at its front, and the project name is the rest; putting them together again gives a path with the same parts, and asking never changes the path. A path inside a folder is relative to it exactly by what follows the folder, other paths stay as they are. Only what exists is a folder or can be opened, and what can not be opened is reported. Folders are made unless they exist, and removing one touches that folder only, whatever characters are in its name. Listings hold exactly the files that end in the extension.",
  ["inputs", "faults"], "all short paths of letters, dots, blanks and slashes, folder names with characters special to shells, and files that exist or not",
  "Paths are free text: dots in folders, blanks, trailing slashes and missing files are combined freely, tests use one path.",
  ["src/core/filesystem/Project.cpp", "src/core/filesystem/Project.h"], [("parts of a path", "src/core/filesystem/Project.cpp"), ("relative paths", "src/core/filesystem/Project.cpp"), ("folders", "src/core/filesystem/Project.cpp")])
P("P28", "Usage and help texts show every argument as defined, laid out for the console",
  "The usage names the program without its folder and then every argument once, in order: positions, options in brackets unless required, repeated values marked, and exclusive arguments parted by bars, in parentheses if one is required, else in brackets. The help starts with the usage and then has the description, every argument with its help under its heading, the groups with theirs, and the epilog. Program name, default and choices stand wherever a text asks for them, and no word is lost. Lines hold as many words as fit in the console, 80 columns if its size is unknown; helps stay in a column an eighth of it in. Refused command lines show the usage and say why; showing texts changes nothing.",
  ["inputs"], "all parsers of the stated shapes, any console width, and texts of words of different lengths",
  "Layout depends on word lengths meeting widths, and placeholders can be anywhere in a text; tests only look at parsed values.",
  ["src/core/argument/Formatter.cpp", "src/core/argument/Parser.cpp"], [("usage", "src/core/argument/Formatter.cpp"), ("layout", "src/core/argument/Formatter.cpp"), ("program name", "src/core/argument/Parser.cpp")])
P("P29", "Progress lines fit the console and show the state of the task they name",
  "On a console a task begins with one line, written over the one before: its indent, its name, or as much as fits ended by dots, the steps done and in all, each in the unit that fits its five figures, the time, a bar that fills the line and the share done in hundredths. Whatever does not fit is left out, and a line never reaches the last column, whatever its width or what was written before. Ending a task shows it complete with the whole time it took, in hours, minutes and seconds, and goes to the next line; figures written afterwards look as usual. Elsewhere the name is written once in a line, after its indent. Empty tasks, and tasks not begun or already ended, write nothing; nothing is written where the width is unknown.",
  ["inputs", "histories"], "any console width, indent, name, number of steps and time within the stated bounds, and any two tasks in a row",
  "Layout depends on widths, lengths and amounts meeting their limits; no test runs on a console.",
  ["src/core/util/ProgressBar.cpp"], [("line", "src/core/util/ProgressBar.cpp"), ("time and amounts", "src/core/util/ProgressBar.cpp")])
