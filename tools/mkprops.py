#!/usr/bin/env python3
"""Source of properties.jsonl: run it to rewrite the file (one record per property)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(files=files.split(),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=[observe] if isinstance(observe, str) else list(observe),
            hook_needed=hook)))

p("C01", "Building a model: ids are consecutive, references valid, rejections harmless",
  "Every accepted call that adds a material, mesh, coarse cell, ray-tracing module (RTM), lattice, assembly or core to a model returns the next consecutive index of its kind and stores exactly the given content, so that everything in a model only ever refers to parts that already exist. "
  "A call with inconsistent arguments (unknown id, ragged rows, face/material count mismatch, non-positive extents, RTM extents differing from those of earlier RTMs, unsorted or mismatching axial planes, invalid pin parameters, second core) is rejected with index -1, and a rejected call leaves the model exactly as it was. "
  "Clearing a model makes it indistinguishable from a new one.",
  "histories inputs", "all finite sequences of add calls (valid and invalid arguments mixed), including clear and further use after rejected calls",
  "Tests build a handful of fixed valid models and never look at the state after a rejected call; the property quantifies over call histories.",
  "src/mpact/model.cpp include/um2/mpact/model.hpp",
  [("argument validation in every add function before storing", "src/mpact/model.cpp add* functions"), ("row flattening", "src/mpact/model.cpp flattenLattice")],
  "return values of the add functions and the public accessors of the model",
  [("model parts", "lists of materials, meshes, cells, RTMs, lattices, assemblies, core", "include/um2/mpact/model.hpp class Model")])

p("C02", "Core layout: every cell instance lands where the nested rows say it should",
  "Rows given top-to-bottom at every level (core of assemblies, lattice of RTMs, RTM of cells) with axial slices bottom-to-top define where each fine cell is: exporting a model to a polytope soup yields each instance of each fine cell exactly once, shifted by the extents of everything to its left and below it, at the mid-height of its slice, carrying its material. "
  "The exported element sets reproduce the nesting exactly: one set per instance at each level, named by the part and the count of its earlier occurrences (bottom row first, left to right, slices bottom-up), each containing precisely the cells of that instance, and the total counts reported by the model equal the number of instances of each kind. "
  "A model without a core exports nothing.",
  "programs inputs", "all well-formed nestings (non-square, repeated and shared parts, several axial slices, unequal extents)",
  "Tests check small, mostly square or single-slice models by eye-written coordinates; transposition, ordering or offset mistakes only show on asymmetric nestings.",
  "src/mpact/model.cpp include/um2/mpact/model.hpp include/um2/mesh/rectilinear_partition.hpp include/um2/mesh/regular_partition.hpp",
  [("recursive export with running offsets and counters", "src/mpact/model.cpp operator PolytopeSoup"), ("child indexing i + nx*j with reversed rows", "include/um2/mesh/*_partition.hpp")],
  "vertices, elements and element sets of the exported soup; numXTotal counters")

p("C03", "Model files: reading a written model gives back an equivalent model",
  "Writing a complete model (every part used in the core, every mesh filling its cell, some parts used repeatedly) to its mesh file and reading that file into an empty model yields an equivalent model: the same nesting of assemblies, axial planes, lattices, RTMs and cells, the same cell extents, fine-mesh vertices and faces, per-cell materials and material names. "
  "Repeated parts are recognised as the same part under the same id (a mesh may become one mesh per cell using it), and writing the model that was read produces the same geometry and hierarchy again. "
  "Mesh types (linear and quadratic triangles and quadrilaterals) may be mixed freely between cells.",
  "programs inputs", "all complete models over small part counts, with repeated parts, several slices, non-square levels and mixed mesh types",
  "The test suite round-trips two fixed models with one assembly and one slice each; id confusions between levels cannot show there.",
  "src/mpact/model.cpp src/mesh/polytope_soup.cpp",
  [("XDMF tree written per level, deduplicated by name on reading", "src/mpact/model.cpp writeXDMFFile / readXDMFFile")],
  "the model obtained by write then read, compared through its public accessors")

p("C04", "Pin meshes: faces tile the pin cell and every ring keeps its area",
  "A cylindrical pin mesh consists of equal-angle sectors in rings ordered from the centre outward: its faces are counter-clockwise, tile the square pitch cell without gap or overlap, and each material region is cut into the requested number of rings of equal total area, equal to the area of the true circular ring, for both the linear and the quadratic form. "
  "A cylindrical pin cell assigns to every face in a region the material given for that region (the last material outside the last radius), and a rectangular pin mesh is the regular grid of equal rectangles filling the given extents in row-major order. "
  "Impossible pins (radius or its area-equivalent polygon beyond half the pitch, fewer than eight or a non-power-of-two number of sectors, missing, mismatching or non-increasing radii, regions without rings, unknown order, non-positive extents or counts) are rejected.",
  "inputs configurations", "all pitches, radius lists, ring counts, sector counts and both mesh orders",
  "Tests cover one or two parameter sets; conservation of area and tiling must hold for all parameters.",
  "src/mpact/model.cpp",
  [("area-preserving equivalent radii", "src/mpact/model.cpp addCylindricalPinMesh"), ("regular grid generation", "src/mpact/model.cpp addRectangularPinMesh")],
  "meshes stored in the model: vertex coordinates, faces, areas, material ids")

p("C05", "Polytope soup: edits behave like edits of an abstract mesh with named sets",
  "A soup behaves as an ordered list of vertices, an ordered list of typed elements over them and a collection of uniquely named, sorted element sets with optional per-element data: adding returns consecutive indices, invalid additions (duplicate set name, empty set, data of wrong length) are rejected without effect, and every stored item can be read back unchanged. "
  "Appending another soup keeps the first unchanged, appends the second's elements re-indexed to its own copies of the vertices, and unites sets of equal name including their data (when both or neither carry data; sets sorted by name). "
  "Extracting a named set yields precisely its elements with the same geometry and order, together with every other set (and its data) restricted to them; translating shifts every vertex, sorting sets changes only their order, and comparing a soup with itself or a copy reports equality while any differing part is reported.",
  "histories inputs", "all finite sequences of add, append, subset, sort, translate, compare, copy and clear over mixed element types",
  "Tests use one or two fixed meshes; index arithmetic over offsets only fails for particular combinations of element types, sets and histories.",
  "src/mesh/polytope_soup.cpp include/um2/mesh/polytope_soup.hpp",
  [("offset arrays kept consistent by each mutator", "src/mesh/polytope_soup.cpp")],
  "public accessors of the soup after every call",
  [("soup content", "vertices, element types/offsets/connectivity, set names/offsets/ids/data", "include/um2/mesh/polytope_soup.hpp")])

p("C06", "Mesh files: write/read keeps the mesh; Abaqus and VTK files are read exactly",
  "A planar soup of linear and quadratic triangles and quadrilaterals, single-type or mixed, with any named element sets and set data, that is written to a mesh file and read back compares equal to the original: same vertices and elements in the same order, same set names, members and data. "
  "Reading an Abaqus or VTK file yields exactly the nodes, elements (1-based and arbitrary-line layout for Abaqus, several element blocks, several sets whose lines end in a comma as mesh generators write them) and element sets or cell data stated in the file, with supported element kinds mapped to the matching element type. "
  "Several meshes can be written and read one after another without influencing each other.",
  "inputs programs histories", "all meshes over mixed element types and set layouts; all well-formed input files of the supported subset",
  "Fixed files of eight meshes are round-tripped by tests; set data, mixed types, long id lists and varied line layouts are not.",
  "src/mesh/polytope_soup.cpp",
  [("per-format writers and readers", "src/mesh/polytope_soup.cpp read/write functions")],
  "soup after write and read; files produced")

p("C07", "Face-vertex meshes: construction keeps the faces, validation finds the defects",
  "A face-vertex mesh built from a soup (or from lists, then validated) has the same faces in the same order over the same vertices; sorting the vertices and counter-clockwise faces in Morton order only renumbers: the multiset of faces as point lists is unchanged, each face keeps its starting vertex and direction, and the derived vertex-to-face incidence lists precisely the faces touching each vertex in increasing order. "
  "Validation turns every clockwise face counter-clockwise without changing its set of points or its boundary curve and touches no other face, and, for faces that do not intersect themselves, reports an error exactly if the mesh is not manifold (an edge used twice in one direction or along two curves) or its boundary is not a single simple loop. "
  "Converting back to a soup and constructing again yields the same mesh, for linear and quadratic triangles and quadrilaterals alike.",
  "inputs histories", "all small valid and defective meshes of each of the four face kinds, under any vertex/face numbering and orientation",
  "Most of the mesh tests for quadrilateral and quadratic meshes are disabled, and the remaining ones use two-face meshes.",
  "src/mesh/face_vertex_mesh.cpp include/um2/mesh/face_vertex_mesh.hpp include/um2/geometry/morton_sort_points.hpp include/um2/common/permutation.hpp",
  [("flip, Morton sort, incidence lists, validate", "src/mesh/face_vertex_mesh.cpp")],
  "mesh vertices, face connectivity, incidence lists, conversion to soup, log messages")

p("C08", "Point location and ray tracing agree with the geometry of the mesh",
  "For a mesh tiling a region, locating a point returns the index of a face containing it (the unique one when the point is interior) and -1 when it lies outside all faces. "
  "Intersecting a ray in general position (through no vertex, touching no edge) with the mesh yields for every face exactly the distances where the ray crosses that face's boundary, grouped by face in face order with correct offsets, and sorting the result orders the faces along the ray and each group ascending without changing any group's values; the segment lengths inside faces sum to the length of the ray inside the region. "
  "The variant that only returns coordinates returns the same values.",
  "inputs configurations", "all ray directions and origins and all points against meshes of every face kind",
  "Tests shoot a few rays through two-face meshes; crossing patterns depend on the combination of ray and mesh.",
  "include/um2/mesh/face_vertex_mesh.hpp src/mesh/face_vertex_mesh.cpp include/um2/geometry/polygon.hpp include/um2/geometry/line_segment.hpp include/um2/geometry/quadratic_segment.hpp",
  [("edge-by-edge intersection, face scan", "include/um2/mesh/face_vertex_mesh.hpp intersect/faceContaining"), ("sortRayMeshIntersections", "src/mesh/face_vertex_mesh.cpp")],
  "results of faceContaining, intersect and the sorted intersections")

p("C09", "Planar primitives give the geometrically correct answer",
  "For triangles, quadrilaterals and their quadratic-edge forms, and for line and quadratic segments, area, centroid, perimeter or length, bounding box, edges, orientation and convexity tests, flipping, interpolation and its derivatives, side and closest-point queries, crossings with rays and other curves and mean chord length (pi times area over perimeter) equal the exact geometric values of the shape described by its vertices. "
  "A counter-clockwise shape with convex corners contains exactly the points on its inside (for straight edges also on its boundary, points on the chord of a curved edge being no exception); flips keep the point set and reverse its direction, and distances along a ray are reported nearest first for a segment. "
  "Boxes grow to the smallest box containing their arguments and answer containment, overlap, scaling and ray intersection accordingly.",
  "inputs", "all integer-coordinate shapes within bounds, all test points on the grid, all cyclic renumberings and orientations",
  "Tests check unit shapes at one position each; sign, index and orientation slips show only for asymmetric shapes.",
  "include/um2/geometry/polygon.hpp include/um2/geometry/triangle.hpp include/um2/geometry/quadrilateral.hpp include/um2/geometry/quadratic_triangle.hpp include/um2/geometry/quadratic_quadrilateral.hpp include/um2/geometry/line_segment.hpp include/um2/geometry/quadratic_segment.hpp include/um2/geometry/axis_aligned_box.hpp include/um2/geometry/point.hpp",
  [("closed-form formulas per shape", "include/um2/geometry")],
  "return values of the geometric queries")

p("C10", "Grids and partitions tile their domain and index it consistently",
  "A regular or rectilinear grid is fully described by its minima and spacings or divisions: cell boxes tile the grid's box, a flat index enumerates cells with x fastest, the cell found for a point inside the domain is the cell whose half-open box contains it, points outside yield an invalid index, and the cells reported for a query box are exactly the index range, per axis, of the half-open cells it meets (invalid along an axis it misses). "
  "A rectilinear grid reconstructed from a set of boxes, or from row-wise ids with per-id sizes, has exactly their distinct division coordinates, and rows given top-to-bottom end up with the last row at the bottom. "
  "Partitions return for each cell the child given for it, and copies are independent of each other.",
  "inputs", "all one-, two- and three-dimensional grids within bounds, all query points on and between grid lines, all query boxes",
  "Tests use a few hand-made grids with equal spacings in which axis mix-ups are invisible.",
  "include/um2/mesh/regular_grid.hpp include/um2/mesh/rectilinear_grid.hpp include/um2/mesh/regular_partition.hpp include/um2/mesh/rectilinear_partition.hpp",
  [("index arithmetic", "include/um2/mesh/*_grid.hpp, *_partition.hpp")],
  "grid and partition accessors and queries")

p("C11", "The dynamic array always equals the abstract sequence of its operations",
  "After any sequence of constructions, copies, moves, assignments, appends (including appending an element of the array itself), pops, resizes, reserves, clears, fills and comparisons, a dynamic array holds exactly the elements the abstract sequence semantics prescribe, with size never exceeding capacity. "
  "Copies are independent of their source, moved-from arrays are empty and reusable, and no element is lost, duplicated, read after destruction or leaked: every constructed element is destroyed exactly once. "
  "This holds equally for element types with and without non-trivial lifetime.",
  "histories inputs", "all finite operation sequences over several arrays that stay within documented preconditions",
  "Unit tests exercise each member once from a fresh array; interactions between capacity, growth, aliasing and element lifetime depend on histories.",
  "include/um2/stdlib/vector.hpp",
  [("three-pointer representation, growth by doubling, trivial/non-trivial paths", "include/um2/stdlib/vector.hpp")],
  "elements, size, capacity, element lifetime counts after every call",
  [("arrays", "begin/end/capacity pointers", "include/um2/stdlib/vector.hpp")])

p("C12", "Strings and string views always equal the abstract text they denote",
  "After any sequence of construction, copy, move, assignment, append and self-append, a string equals the abstract text, is null-terminated and independent of the strings it came from, whatever the mixture of short and long lengths crossed. "
  "Comparison is lexicographic and agrees with equality, searching for characters and substrings returns the first or last position or the not-found value, sub-strings, prefix and suffix tests and trimming agree with the text, and splitting off a token consumes exactly that token and its delimiter. "
  "Conversion from numbers yields their decimal text.",
  "histories inputs", "all operation sequences and texts, particularly around the length where the representation changes",
  "Unit tests call each member on one or two literals; representation changes depend on histories.",
  "include/um2/stdlib/string.hpp include/um2/stdlib/string_view.hpp",
  [("short-string representation flag, explicit copies", "include/um2/stdlib/string.hpp"), ("view arithmetic", "include/um2/stdlib/string_view.hpp")],
  "text, size, capacity bound, query results after every call")

p("C13", "Sorting, permutations and Morton codes: exact order, nothing lost",
  "Sorting utilities return the ascending arrangement of exactly the input values; the sorting permutation lists input positions so that applying it to any array of equal length sorts the keys, inverting it composes to the identity, and applying it is a pure rearrangement; sortedness, maximum, comparison, clamping, copying and filling follow their definitions. "
  "Morton encoding interleaves coordinate bits, decoding inverts it for every coordinate up to the full width of the code, and the order of codes is the Z-order of the coordinates in two and three dimensions. "
  "Sorting points in Morton order keeps the multiset of points and makes codes non-decreasing.",
  "inputs", "all arrays up to a bounded length with repeated values; all coordinate tuples including the extremes of their width",
  "Tests use single examples; bit-level slips affect only some high bits and ties affect only arrays with repetitions.",
  "include/um2/common/permutation.hpp include/um2/common/insertion_sort.hpp include/um2/common/branchless_sort.hpp include/um2/math/morton.hpp include/um2/geometry/morton_sort_points.hpp include/um2/stdlib/algorithm",
  [("bit masks / pdep-pext, stable index sort", "include/um2/math/morton.hpp, include/um2/common/permutation.hpp")],
  "returned arrays, permutations and codes")

p("C14", "Materials and cross sections: compositions and sums are exact for any mixture",
  "A material's number densities follow from its density and weight or atom fractions by the standard conversion with the tabulated atomic masses (uranium dioxide with any enrichment and gadolinia content included), in the order added; a nuclide name such as U235 or U-235 denotes that isotope. "
  "Its macroscopic cross section is, for every reaction and group (including each entry of the scattering matrix), the sum over nuclides of number density times the nuclide's cross section at the material temperature, linear in the square root of temperature between tabulated temperatures and constant outside them; it is fissile exactly if a contributing nuclide is. "
  "Collapsing to one group gives the group average of every reaction, with total scattering the group average too; validation flags negative or inconsistent data; and the built-in seven-group benchmark materials have the published values.",
  "inputs programs", "all compositions over any nuclides, temperatures below, at, between and above table points, any number of groups",
  "Tests check two or three published numbers; the sums must hold for all mixtures, fields and group indices.",
  "src/physics/material.cpp src/physics/nuclide.cpp src/physics/cross_section.cpp include/um2/physics/material.hpp",
  [("interpolation and accumulation", "src/physics/nuclide.cpp interpXS, src/physics/material.cpp populateXSec")],
  "number densities, cross-section fields, log messages")

p("C15", "Cross-section library files are parsed into exactly the data they state",
  "Reading a library file yields its groups, energy bounds and fission spectrum, and for each nuclide its identifier, mass, temperatures and, per temperature and group, every reaction value together with the banded scattering row placed at the stated columns and zero elsewhere. "
  "Nuclides are found by identifier regardless of their position, with as many temperatures as stated, and an unknown identifier is reported as an error. "
  "Absorption-only rows, values wrapped over several lines, extra blanks and sections that are not used do not change what is read.",
  "inputs programs", "all well-formed library files over bounded numbers of groups, nuclides and temperatures",
  "The repository tests for it need library files that are not shipped, and would only spot-check a few header numbers.",
  "src/physics/cross_section_library.cpp src/physics/nuclide.cpp",
  [("line-oriented section parser", "src/physics/cross_section_library.cpp")],
  "public data of the parsed library")

p("C16", "Power and source post-processing reports exactly what the file contains",
  "Integrating power over a solution file reports one entry per region, a region being a maximal set of cells with positive power connected through common vertices: the total of cell power times cell area over exactly the cells of the region, and the centroid of their union. "
  "The set of entries does not depend on how cells and vertices are numbered or on whether touching cells share vertex numbers, and cells without power contribute nothing. "
  "Source extraction gives every cell the sum over all energy groups of its flux times the scattering and the nu-fission cross section of its own material.",
  "inputs", "all solution meshes with any arrangement of powered and unpowered cells",
  "Tests use one fixed solution file.",
  "src/mpact/powers.cpp src/mpact/source.cpp",
  [("region growing over faces", "src/mpact/powers.cpp"), ("data gathering", "src/mpact/source.cpp")],
  "returned list of powers and positions")

p("C17", "Logging: exactly the enabled messages appear, in order, well formed",
  "A message is written exactly if its level is at or below the current level, as one line containing the level name and the exact concatenation of its arguments, to the error stream for errors and the output stream otherwise, in the order of the calls. "
  "An error ends the process exactly if exiting on error is enabled, after the message was written; otherwise the process continues unaffected. "
  "Changing level, colour, timestamp or exit settings takes effect for the next message, and resetting restores the defaults and restarts the time stamps; colour marks the level and ends with the line, and a message longer than the line limit is cut, never corrupting memory.",
  "histories configurations inputs", "all sequences of settings changes and messages over all argument kinds and lengths",
  "Tests check the setters only; output depends on the history of settings and the arguments.",
  "src/common/logger.cpp include/um2/common/logger.hpp src/common/settings.cpp src/um2.cpp",
  [("level filter and bounded line buffer", "src/common/logger.cpp")],
  "standard output and error streams, exit status")

p("C18", "The C interface reports every model behind its handle as it is",
  "Whatever models a program reads through the C interface and in whatever order it creates, queries and deletes handles, every query answers for the model behind that handle: part counts, children, extents, areas, centroids, material ids, mesh data, slice heights and the lists of distinct part heights (every part and height that occurs, once, by increasing height and then id). "
  "The face containing a point and the sorted list of all distances at which a ray crosses face edges agree with the cell's mesh. "
  "Result arrays receive exactly the reported number of values, and handles never influence each other.",
  "programs histories", "all well-formed call sequences over several handles and any valid models",
  "The C test reads one small model and calls each function once.",
  "src/um2c.cpp include/um2c.h",
  [("handle casts and argument conversion", "src/um2c.cpp"), ("distinct part heights", "src/um2c.cpp um2MPACT*Heights")],
  "outputs of the C functions for every handle")

p("C19", "Geometry kernel groups: every entity keeps exactly its rightful groups",
  "Whatever sequence of geometric insertions, additions to groups, fragmentations, intersections, cuts and coarse grid overlays is applied, every piece of the resulting geometry belongs to exactly the named groups of the entities it came from, so fragmenting neither takes area from a group nor adds any to it; a refused operation changes nothing. "
  "With a material hierarchy, each piece keeps only the highest-priority listed material covering it, and a grid overlay keeps the pieces inside coarse cells, with the fill material only where nothing else is. "
  "Saving the geometry with its group information and opening it again restores every group's name, members and colours.",
  "programs histories", "all small arrangements of overlapping shapes with any group assignment and priority order",
  "Tests use two-shape arrangements with fixed groups.",
  "src/gmsh/model.cpp src/gmsh/io.cpp include/um2/gmsh/model.hpp",
  [("group bookkeeping through child maps", "src/gmsh/model.cpp groupPreserving*"), ("info file", "src/gmsh/io.cpp")],
  "groups, entities and areas queried from the kernel")

p("C20", "Modular rays: cyclic, complete and equally spaced on every module",
  "For every module and requested angle (not along an axis) and spacing, each side gets the smallest number of rays that keeps neighbouring rays no further apart than requested, the reported spacing along each side is its length divided by that number, and all rays run in the reported direction, which crosses one spacing in x for one in y. "
  "Rays start equally spaced on the bottom and on the side they run away from, half a spacing in from the corners, so that a ray leaving a module continues exactly as a ray of the neighbouring identical module. "
  "Complementary angles produce mirrored ray sets.",
  "inputs", "all module extents, azimuthal angles in both quadrants and spacings",
  "Tests check a few angles on a square; the cyclic property depends on the combination of aspect ratio, angle and spacing.",
  "include/um2/geometry/modular_rays.hpp",
  [("angle and spacing correction to integer counts", "include/um2/geometry/modular_rays.hpp")],
  "ray origins and directions for every index")

p("C21", "Derived model output: homogenised data, volumes and files match the model",
  "Quantities derived from a model are those of its geometry and materials: a cell's homogenised cross section is the area-weighted mean over its fine cells for every reaction and group, mean chord lengths are those of each fine cell in export order, and exported per-element data (material, one-group cross section, chord length, Knudsen number) equals the value of the element's own material and shape. "
  "The volume report attributes to every material the total of fine-cell area times slice height over all instances in the core, the cross-section file lists every material's data per group, and the input file lists every material once with its number, name, density, temperature and complete composition, names the geometry file and sets the ray spacing to a quarter of the chord length that nine tenths of the fine cells exceed. "
  "The data stored with each cell instance in the model file (material, per-group and group-averaged cross sections, chord length, Knudsen number, as requested) are those of the cell's own faces.",
  "programs inputs", "all complete models over small part counts with several materials and unequal slice heights",
  "Tests check one model's file or value; sums over instances only differ on repeated and unequal parts.",
  "src/mpact/model.cpp",
  [("area weighting and accumulation over instances", "src/mpact/model.cpp getCoarseCellHomogenizedXSec, getMeanChordLengths, write")],
  "returned cross sections, soup data, text files written")

p("C22", "Small linear algebra and polynomial solvers return exact solutions",
  "Matrix sums, differences, scalar, vector and matrix products, (conjugate) transposes of square matrices and element access agree with exact arithmetic for real and complex, square and rectangular, fixed and dynamic sizes, with and without the BLAS library and whatever the target held before; solving a regular linear system returns the solution without touching its inputs, and eigenvalues are returned with their multiplicity. "
  "Quadratic and cubic solvers return all simple real roots and only roots, in ascending order and also when they differ greatly in size, marking missing ones as such; short vectors add, scale, compare, measure and cross as in exact arithmetic. "
  "Sums, means, medians, variances and standard deviations equal the exact statistics of the data at any length and offset.",
  "inputs", "all integer matrices and polynomials with bounded entries; all data lengths around the blocking sizes",
  "Tests use one or two examples each; shape mix-ups need rectangular operands, summation blocks need long inputs.",
  "src/math/matrix.cpp include/um2/math/matrix.hpp include/um2/math/quadratic_equation.hpp include/um2/math/cubic_equation.hpp include/um2/math/stats.hpp include/um2/math/vec.hpp include/um2/math/mat.hpp",
  [("column-major storage, dense solver calls", "src/math/matrix.cpp"), ("pairwise summation", "include/um2/math/stats.hpp")],
  "returned matrices, vectors and numbers")

p("C23", "Text to numbers and layouts: what is written is what is stored",
  "A layout given as text yields the same rows, in the same order and with the same values, as the text shows, independent of leading, trailing or repeated spaces, blank lines and the number of digits. "
  "Text-to-number conversion returns the stated value and the position just after it, and zero-padded numbering of parts counts in decimal without skipping, repeating, changing width or touching the text before the number. "
  "The label formed from an index equals the label reached by counting up to it; colours hold the components they are given.",
  "inputs", "all rectangular layouts of integers with arbitrary white space; all indices below the width limit",
  "Tests use one or two literals each.",
  "include/um2/common/string_to_lattice.hpp include/um2/common/strto.hpp include/um2/mpact/model.hpp",
  [("token splitting", "include/um2/common/string_to_lattice.hpp"), ("decimal carry", "include/um2/mpact/model.hpp incrementASCIINumber")],
  "returned rows, values and labels")

p("C24", "Importing coarse cell meshes: every cell gets its own faces and materials",
  "Importing a mesh file into a model gives every existing coarse cell exactly the elements of the set named after it, in file order and moved so that the cell's lower left corner is the origin, as one new mesh of the elements' kind: each face keeps its shape (clockwise ones are turned), vertices are the distinct ones used, and its material is the first model material whose name follows 'Material_' in the set holding the element. "
  "Cell extents, hierarchy, materials and earlier meshes stay as they were, so exporting the model afterwards places the imported faces as the nesting says. "
  "A face without a material set or with an unknown material name is reported as an error.",
  "inputs histories", "all documents tiling all cells (any element and node order, shared or separate nodes, any placement, mixed kinds between cells, any number of cells) after any building history, including repeated imports",
  "One test imports one document; mix-ups of cells, elements, materials with similar names and offsets need other orders and placements.",
  "src/mpact/model.cpp src/mesh/polytope_soup.cpp src/mesh/face_vertex_mesh.cpp",
  [("subset per cell, material lookup, shift to local coordinates", "src/mpact/model.cpp importCoarseCellMeshes")],
  "cells and meshes of the model through its public accessors; the exported soup")

p("C25", "Meshing a geometry: conforming, material by material, at the sizes asked for",
  "Meshing a geometry whose parts do not overlap gives elements of the requested kind that cover each part exactly once (curved sides up to the chords of linear elements), meet without gaps across parts, and are in a set exactly for each group of their part. "
  "Sides and parts are divided according to the size in force: a global size, or per material 12/(pi sqrt(3) Kn Sigma) for its group-averaged total cross section Sigma, growing linearly as asked with the distance from fuel (non-absorbing materials) or from its border (absorbers, scattering below a fifth of a total above 0.9). "
  "A request that cannot be met (materials and groups differ, no cross sections, Knudsen number not positive, no fuel or absorber to measure from) is reported and changes nothing; earlier models do not influence the sizes of a new one.",
  "inputs histories", "all non-overlapping geometries with any materials and cross sections, any order of size requests (accepted and refused) and new models, linear and quadratic triangles, followed by import into a model with a coarse grid",
  "The tests mesh single discs and check an element count; which size reaches which part depends on material order, groups, absorbers and what was asked before.",
  "src/gmsh/mesh.cpp src/gmsh/model.cpp src/gmsh/io.cpp src/mpact/model.cpp",
  [("size fields per material, distance fields, background field", "src/gmsh/mesh.cpp setMeshFieldFromKnudsenNumber"), ("global size and mesh generation", "src/gmsh/mesh.cpp setGlobalMeshSize generateMesh")],
  "return value and messages; the mesh file read back as a soup: kinds, sets, areas, element counts, pieces of straight sides; areas of materials per imported coarse cell")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
