"""Single source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INP, HIST, CONF, FAULT, PROG = (
    "inputs", "histories", "configurations", "fault_sequences", "programs")

P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note,
         state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(
            files=["gdspy/" + f for f in files],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]}
               if state else {}),
            **({"observe_at": observe} if observe else {}),
            hook_needed=None,
        ),
        _t=technique, _n=" ".join(note.split()),
    ))


EXH = "exhaustive enumeration of bounded histories on the real code against a reference model"
GEN = ("Every case inside the stated alphabet and bound is executed on the real code "
       "(no sampling) and compared with an independent reference; says nothing about "
       "values outside the alphabet. Trusts numpy, the Python runtime and the oracle.")

prop("C01", "Writing a library to GDSII and reading it back preserves its meaning",
     """For every library that fits the GDSII format, reading back what was written (to
     a file, a path or any binary stream) with the same units gives the same cells in which
     polygons, labels, references, arrays, GDSII paths, layers, datatypes, texttypes, transformations
     and properties are equal to the originals up to the database grid. Writing the library
     that was read (same timestamp) reproduces the stream byte for byte (points repeated in a row in a GDSII path are written once). Reading
     with units='convert' or an explicit unit scales all lengths consistently, and 'import'
     adopts the unit and precision of the file.""",
     [INP, HIST, CONF],
     """all element descriptions of the alphabets (polygons incl. >8190 vertices, labels,
     references, arrays, paths), all pairs/triples of element kinds in one cell, all unit,
     precision and read-units combinations, write-read-write-read histories""",
     """the tests write a handful of fixed cells and compare them; the guarantee ranges over
     every combination of element attributes, vertex counts, element order and units""",
     ["library.py", "gdsiiformat.py", "polygon.py", "path.py", "label.py"],
     [("record dispatch state machine", "library.py GdsLibrary.read_gds"),
      ("record packing", "to_gds of every element"),
      ("8-byte reals", "gdsiiformat.py")],
     EXH, GEN, observe=["GdsLibrary.write_gds", "GdsLibrary.read_gds"])

prop("C02", "GDSII output is well-formed and denotes exactly the library in memory",
     """Every stream produced by write_gds or GdsWriter is accepted by the strict GDSII
     stream grammar (record lengths even, data types, closed boundaries, record order,
     padding, ENDLIB last) and, decoded independently, contains exactly the cells, element
     geometry (rounded to the database grid), transformations, properties, units, names and
     timestamps of the library written. Paths that are not GDSII paths are written as the
     polygons they report, on their layers and with their properties.""",
     [INP, CONF],
     """every element of the alphabets alone and in all sequences up to length 2 (3
     thorough), 6 unit/precision pairs, 4 ways of writing, names of all length parities""",
     """the tests only check that gdspy reads back what it wrote itself; a matching pair of
     writer/reader mistakes is invisible to them and few encodings are sampled""",
     ["library.py", "gdsiiformat.py", "polygon.py", "path.py", "label.py"],
     [("stream writer", "library.py GdsLibrary.write_gds / GdsWriter"),
      ("element encoders", "polygon.py/label.py/path.py/library.py to_gds")],
     EXH + " and an independent strict stream parser", GEN,
     observe=["bytes passed to the output file"])

prop("C03", "GDSII 8-byte reals are converted exactly within their precision",
     """The 8-byte real written for any finite number within the range of the format
     decodes (by the definition of the format) to that number within 2 units of the last
     place of the 56 bit mantissa, is zero for zero and is normalised. Decoding any
     normalised or denormalised 8-byte
     pattern gives the floating point number nearest to its exact value, so that
     decode(encode(x)) == x for every number representable in the format.""",
     [INP], """all sign/exponent combinations of the format with a family of mantissa
     patterns (single bits, runs, boundaries around powers of 2 and 16)""",
     """the tests check a few constants; exponent boundaries (exact powers of 16) are where
     conversions go wrong""",
     ["gdsiiformat.py"], [("_eight_byte_real / _eight_byte_real_to_float", "gdsiiformat.py")],
     "exhaustive enumeration of a structured input space against exact rational arithmetic",
     GEN)

prop("C04", "Reading any conformant GDSII stream yields the layout it denotes",
     """For every well-formed stream (optional records, properties, several XY records,
     BOX/NODE and other unsupported elements, absent or default STRANS/PATHTYPE/WIDTH, null
     padding, forward and missing references) read_gds creates exactly the denoted
     elements with their layers, types, transformations and properties, in stream order
     per kind. The rename, rename_template, layers, datatypes and texttypes options apply
     to every matching item (cell definitions and references alike), and only to those.""",
     [INP, CONF],
     """streams produced by an independent encoder: every element kind x every subset of
     optional records x value alphabets, all sequences of element kinds up to length 3, all
     combinations of read options""",
     """the tests only read files produced by gdspy itself, so records it never writes and
     their state carried between elements are never exercised""",
     ["library.py", "gdsiiformat.py"],
     [("record dispatch state machine", "library.py GdsLibrary.read_gds"),
      ("record reader", "gdsiiformat.py _record_reader")],
     EXH + " fed by an independent stream encoder", GEN, observe=["GdsLibrary.read_gds"])

prop("C05", "A library is a consistent map of unique cell names under any edits",
     """After any sequence of add (single cells, lists, generators or sets, with and without
     dependencies, overwriting or not, updating references or not), new_cell, remove, rename_cell,
     replace_references and Cell.add operations, the library maps every name to the
     cell of that name, and references point to the cells that the documentation of the operations
     requires. An operation that is refused (name conflict, unknown cell) raises
     ValueError and leaves the library and all references unchanged.
     Dependencies of the cells added are added with them unless disabled, and removal
     or replacement reaches every reference and array in the library and counts them exactly.""",
     [HIST, FAULT],
     """all operation sequences up to a bounded depth over 3 names, same-named
     but different cells, cell/name references and arrays, every option combination;
     refused operations are part of the alphabet""",
     """tests run one short scenario per operation; name conflicts, dependency closures and
     the state after a refused operation depend on the whole history""",
     ["library.py"],
     [("GdsLibrary.add/new_cell/remove/rename_cell/replace_references", "library.py"),
      ("Cell.get_dependencies", "library.py")],
     "breadth-first search over operation histories of the real library against a dictionary model",
     GEN, state=[("cells", "name to cell map", "library.py GdsLibrary.cells")])

prop("C06", "Flattened geometry equals composed transformations of the hierarchy",
     """For every hierarchy of cells, the polygons, paths and labels obtained from a cell,
     reference or array (get_polygons with and without by_spec, get_polygonsets, get_paths, get_labels, flatten) are
     exactly the images of the elements of the referenced cells under reflection,
     magnification, rotation, array translation and origin, composed along each reference
     path, on their original layers and types. Depth limits stop the expansion
     at that level; references to missing cells contribute nothing.""",
     [INP, PROG, HIST],
     """all chains of references and arrays up to 3 levels over an alphabet of
     transformations (including None/0/1 forms), all depths, all query functions, cells with polygon sets, paths
     and labels""",
     """tests use one or two fixed transformations; composition order and the
     None-or-value shortcuts only show for particular combinations of two levels""",
     ["library.py", "polygon.py", "path.py", "label.py"],
     [("CellReference/CellArray.get_*", "library.py"), ("Cell.get_*, flatten", "library.py")],
     EXH, GEN, observe=["Cell.get_polygons", "Cell.get_paths", "Cell.get_labels"])

prop("C07", "Bounding boxes are tight and never stale after any edit",
     """get_bounding_box of a cell, reference or array is the smallest rectangle
     that contains all polygons of its current flattened contents, or None when there are none,
     whatever edits were made to any cell of the hierarchy and whatever queries came
     before.""",
     [HIST],
     """all histories of edits (add elements or references, remove polygons/paths/references, in-place transforms of
     elements, replace references, flatten) and bounding box queries up to a bounded depth
     over a 3 level hierarchy, with rotations, reflections and arrays""",
     """tests query a bounding box once after construction; staleness needs an edit below a
     previously queried cell""",
     ["library.py"], [("Cell.get_bounding_box, reference bounding boxes", "library.py")],
     "breadth-first search over edit/query histories against recomputation from the model", GEN,
     state=[("_bb_valid", "validity of a cached bounding box", "library.py Cell")])

prop("C08", "Layer, type, dependency, area and top-level queries reflect the contents",
     """get_layers, get_datatypes, get_texttypes, get_svg_classes, get_dependencies, area
     (total and by layer and datatype) and top_level return exactly what the current contents
     of the cell, reference, array or library imply for every hierarchy, including missing
     cells, empty cells and cells shared by several parents.""",
     [INP, HIST],
     """all acyclic hierarchies over up to 4 cells with every subset of edges (single
     references and arrays, by cell or by missing name), contents drawn from all element kinds, all argument combinations""",
     """tests use one fixed library; recursion over shared and missing cells and
     multiplicities of arrays depend on the graph shape""",
     ["library.py"], [("Cell.get_layers ... area, GdsLibrary.top_level", "library.py")],
     "exhaustive enumeration of all hierarchies up to 4 cells against set/graph definitions", GEN)

prop("C09", "Cell.copy applies the transformation exactly and shares nothing",
     """Cell.copy with any rotation, magnification, reflection and translation gives a cell
     whose flattened polygons and labels are the images of those of the original under
     that transformation, at every depth of the hierarchy. After a deep copy no edit of either cell (its
     elements, properties, coordinates or references) is visible in the other; a shallow
     copy owns its own element lists.""",
     [INP, HIST],
     """all transformations of an alphabet x all element kinds x deep or
     shallow, followed by all single edits on either side""",
     """tests copy one cell with one transformation; aliasing is only visible after a later
     edit of the other object""",
     ["library.py", "label.py", "polygon.py", "path.py"], [("Cell.copy", "library.py")],
     EXH, GEN)

prop("C10", "Filtering and flattening a cell leave exactly the selected contents",
     """remove_polygons, remove_paths and remove_labels delete exactly the polygons, paths
     and labels for which the user's test is true and keep all others unchanged and in
     order, and flatten replaces references by their contents with the requested layer,
     datatype and texttype. After any sequence of these operations the cell still works:
     it can be queried, transformed, flattened again, copied and written to GDSII with consistent
     layers and datatypes per polygon.""",
     [HIST, CONF],
     """all sequences of up to 3 filter/flatten/add/transform/write operations over cells with
     polygon sets of 0-3 polygons, paths and labels, every subset of removed items""",
     """tests call each operation once and look at one result""",
     ["library.py"], [("Cell.remove_polygons/remove_paths/remove_labels/flatten", "library.py")],
     EXH, GEN)

prop("C11", "Boolean operations compute exact set algebra of the operands",
     """For operands in every accepted form (polygon sets, paths, references, arrays,
     point lists, lists mixing them, empty), boolean(or/and/not/xor) covers exactly the union,
     intersection, difference or symmetric difference of the areas covered by the operands, up to the given
     precision. The result is None when and only when that area is empty, its polygons do not overlap (an empty second operand of not and xor returns the first one as it is), respect
     max_points (limits up to 4 mean none), have vertices at multiples of the precision, carry the requested layer and datatype, and the operands are not changed.""",
     [INP, CONF],
     """all pairs of polygons/rectangle sets from a family on a small integer lattice
     (coincident edges, shared vertices, holes, nesting, self-intersections, both orientations) x 4
     operations x operand forms x precisions and max_points""",
     """tests compare one square pair; degenerate contacts (coincident edges, touching
     vertices, holes) are combinatorial""",
     ["operation.py", "clipper.cpp"],
     [("boolean, _gather_polys", "operation.py"), ("clip, bounding_box, link_holes", "clipper.cpp")],
     "exhaustive enumeration of lattice layouts on the real clipper against cell-by-cell point membership",
     GEN)

prop("C12", "slice splits geometry at the cuts without losing or moving any area",
     """slice(polygons, positions, axis) returns len(positions)+1 polygon sets, the i-th covering
     exactly the part of the operands between consecutive cut positions (in increasing
     order), with vertices at multiples of the precision, on the requested layer and datatype, and None for an empty part.
     Scalar and list positions, both axes and every operand form behave
     alike and operands are unchanged.""",
     [INP, CONF],
     """all lattice polygons/sets of a family x both axes x all increasing position lists up to length
     3 (on vertices, on edges, between, outside, repeated)""",
     """tests slice two shapes; cuts through vertices and along edges are combinatorial""",
     ["operation.py", "clipper.cpp"], [("slice", "operation.py"), ("_chop", "clipper.cpp")],
     "exhaustive enumeration of lattice layouts and cuts against point membership", GEN)

prop("C13", "offset grows and shrinks regions by exactly the given distance",
     """offset(polygons, d) with miter joints covers, for rectilinear operands, exactly the points within
     Chebyshev distance d of the operand (d>0) or farther than |d| from its complement (d<0),
     with join_first joining operands before and otherwise offsetting each on its own; bevel and
     round joints lie between the exact Euclidean offset (up to tolerance) and the miter
     result. None results exactly from empty results, and layers, datatypes, max_points and operands are treated as in
     boolean.""",
     [INP, CONF],
     """all lattice rectilinear polygons and pairs x distances of both signs x 3 joints x join_first x
     forms""",
     """tests offset two shapes; merging, vanishing and hole behaviour depends on the
     combination of shapes and distance""",
     ["operation.py", "clipper.cpp"], [("offset", "operation.py"), ("offset", "clipper.cpp")],
     "exhaustive enumeration of lattice layouts against point-distance membership", GEN)

prop("C14", "inside answers point membership for every grouping and short-circuit",
     """inside(points, polygons, short_circuit, precision) answers for every point or
     group of points exactly whether it lies in the union of the polygons, with 'any'
     and 'all' being the disjunction and conjunction over each group, for all operand
     forms and orders. No point on the given side of the boundary by more than the precision is misclassified.""",
     [INP, CONF],
     """all lattice polygons/sets x all quarter-lattice points off the boundary (inside, outside,
     level with vertices and edges) x groupings x any/all""",
     """tests ask a few points; ray casting errs on points level with vertices""",
     ["operation.py", "clipper.cpp"], [("inside", "operation.py"), ("point_in_polygon, inside", "clipper.cpp")],
     "exhaustive enumeration of lattice polygons and points against an exact winding oracle", GEN)

prop("C15", "fracture partitions polygons into small pieces without changing them",
     """PolygonSet.fracture(max_points) leaves the covered area and the per layer and datatype
     coverage unchanged up to the precision, keeps every piece at or below max_points vertices (when
     max_points > 4, and does nothing otherwise), keeps polygons, layers and datatypes lists the same length, makes pieces that do not overlap,
     and terminates for every polygon. Construction with max_points (Round, Path, boolean, text)
     obeys the same limit.""",
     [INP, CONF],
     """all combs, spirals, stars and lattice polygons of a family x max_points 0..12,199 x
     multi-polygon sets with distinct layers, repeated fracture""",
     """tests fracture one circle and one rectangle""",
     ["polygon.py", "clipper.cpp"], [("PolygonSet.fracture", "polygon.py"), ("_chop", "clipper.cpp")],
     "exhaustive enumeration of a polygon family against point membership and area", GEN)

prop("C16", "Polygon transforms are exact, composable and consistent with queries",
     """For PolygonSet, Polygon, Rectangle, Round and Text every sequence of translate, rotate, scale,
     mirror, fillet and layer or datatype changes gives the vertices
     obtained by applying the mathematical maps in order, with area and bounding box consistent with the vertices,
     and does not touch objects it was not called on. Filleting replaces corners by arcs of the given
     radius tangent to both edges (limited by half the edge lengths), per vertex or
     per polygon as specified.""",
     [HIST, INP],
     """all operation sequences up to depth 3 (4 thorough) over an alphabet of ~12 operations with
     scalar and pair arguments on polygon sets of 1-3 polygons; fillet radii in
     every accepted form""",
     """tests apply single operations to one rectangle""",
     ["polygon.py"], [("PolygonSet methods", "polygon.py")],
     "breadth-first search over operation histories against an affine-map model", GEN)

prop("C17", "Path and L1Path build the strips described by their commands",
     """Any sequence of segment, arc, turn, parametric, bezier and smooth commands on a Path leaves position,
     direction, width and spacing as commanded, each command adds for every parallel
     path a strip of the commanded widths and spacing, centred on the commanded curve (within tolerance), that continues where the previous one ended, on the
     same side, on the layer and datatype of that path and in pieces of at most max_points; its length grows by the length of the curve (or scales with it), also where the width is 0;
     the borders of circular sections are within about the tolerance of the arcs. L1Path covers exactly the Manhattan route of its
     turns and lengths for every parallel path and ends at the reported point.
     Rotation, translation, scaling and mirroring of a Path transform its polygons and its end point and direction
     so that further commands continue from there.""",
     [HIST, INP],
     """all command sequences up to depth 3 over an alphabet of ~20 commands x widths,
     tapers, numbers of paths, initial directions""",
     """tests draw a handful of fixed paths""",
     ["path.py", "polygon.py"], [("Path methods, L1Path", "polygon.py / path.py")],
     EXH, GEN, state=[("x, y, direction, w, distance", "end state", "Path")])

prop("C18", "FlexPath polygons cover exactly the described strips",
     """For every FlexPath built by any sequence of its construction commands (initial points, segment, arc, turn, parametric,
     bezier, smooth, absolute or relative), the spine continues from its last point along the commanded
     curve, within about the tolerance of it, to its end; widths and offsets go from the previous values to the commanded ones in equal steps
     over the vertices of the section (a number or a list for the widths, an increment for all or a list of absolute
     offsets), previous sections unchanged. Its polygons cover, for each parallel path, on its layer and datatype and in pieces of at most
     max_points, the points within half its width of its offset spine with the chosen ends (flush, extended,
     round, smooth, given extensions, callable) and corners (natural, miter, bevel, round, smooth, circular
     bend, callable), for sections long enough for their corners; circular borders (of arcs, turns, bends, round corners and ends) are
     within about the tolerance of their arcs, and cuts into pieces happen at the given precision.""",
     [HIST, INP, CONF],
     """all command sequences up to depth 3 x widths/offsets x corners x ends x bend radius on
     lattice spines""",
     """tests compare a few recorded outputs""",
     ["path.py"], [("FlexPath construction and get_polygons", "path.py")],
     EXH, GEN)

prop("C19", "FlexPath edits and transforms are exact and never show stale geometry",
     """After any interleaving of construction commands, translate, rotate, scale, transform
     and changes of its layers and datatypes with polygon, polygon set, area, bounding box, SVG and GDSII queries, the spine,
     widths, offsets, bend radii and end extensions of a FlexPath are those of the transformed path, its polygons
     cover it, all its queries agree, and they are the same as if it had never been queried before.""",
     [HIST],
     """all histories up to depth 4 of edits, transforms and queries""",
     """stale caches need query-edit-query histories no test performs""",
     ["path.py"], [("_polygon_dict cache", "path.py FlexPath")],
     "breadth-first search over edit/query histories, differential against fresh objects", GEN,
     state=[("_polygon_dict", "cached polygons", "path.py FlexPath")])

prop("C20", "RobustPath geometry is exact and consistent under edits and transforms",
     """For every RobustPath built by any sequence of its construction commands (segment, arc, turn, parametric, bezier,
     smooth; width and offset given as number, function or list, of python or numpy numbers) the current point, widths and offsets are
     those commanded, position, direction (grad) and width queries along the path return those of the commanded
     sections, and the polygons cover, for each parallel path on its layer and datatype and in pieces of at most max_points, the
     strip of its width about its offset spine within the tolerance, the borders meeting at corners, with the chosen ends; round ends
     are within about the tolerance of their arcs and cuts into pieces happen at the given precision. Any
     interleaving of construction, translate, rotate, scale, transform, layer changes and queries shows the geometry of the
     current path as if never queried before, and further commands continue from the transformed end
     point and direction.""",
     [HIST, INP],
     """all histories up to depth 4 of commands, transforms, queries over lattice
     spines, widths and offsets""",
     """tests compare a few recorded outputs; stale caches and transformation bookkeeping
     need mixed histories""",
     ["path.py"], [("RobustPath", "path.py")],
     "breadth-first search over edit/query histories against a strip model", GEN)

prop("C21", "GDSII PATH records describe the same geometry as the path's polygons",
     """For FlexPath and RobustPath objects created as GDSII paths, after any sequence of construction commands,
     translations, rotations, scalings, reference transformations and layer changes, one PATH element is written for each parallel
     path, with its layer, datatype and properties, its end type and extensions, its width (negative when widths do not follow
     transformations, which then keep it) and, within the database grid and the tolerance, the centre line of the path: its offset spine with bends
     as arcs. Where the format can express the path (natural, miter or circular bend corners up to 90 degrees,
     flush, round, extended ends or extensions) the region of the elements is the region of the
     polygons the object reports. Reading them gives GDSII paths with the same centre line, width and region, which are written as the same elements.""",
     [INP, HIST],
     """all spines of up to 3 lattice sections x widths and offsets x corners x ends x units, all sequences of up to
     2 edits (3 thorough); for RobustPath all sequences of 8 commands up to depth 2 (3)""",
     """tests check that such paths are written and read, not that record and polygons agree""",
     ["path.py", "library.py"], [("to_gds of FlexPath and RobustPath", "path.py"), ("PATH records", "library.py GdsLibrary.read_gds, _create_path")],
     EXH + " and the region of PATH elements by the definition of the format", GEN)

prop("C22", "Curve commands follow SVG path semantics for every command sequence",
     """After every sequence of Curve commands (L l H h V v C c S s Q q T t B b I i arc, coordinates as numbers
     or complex numbers, any number of segments per command) the curve passes in order through the points commanded and
     ends at the last one: relative coordinates are relative to the position at which
     the command starts, smooth commands reflect the last control point of a
     preceding cubic (C c S s I i) or quadratic (Q q T t) command and start without one after any other command. All
     vertices lie in order on the mathematical line, Bezier, Hobby spline or elliptical arc, with
     chords within about the tolerance of it (also around inflection points), and earlier vertices never change. get_points leaves the last vertex out when and only when it is
     within the tolerance of the first.""",
     [HIST, INP],
     """all sequences of up to 2 commands out of 36 and up to 3 out of 13 (3 and 4 thorough), with lattice
     arguments, 4 starting points and 3 tolerances""",
     """tests check single commands at fixed arguments; reflection and relative positions
     depend on the preceding command""",
     ["curve.py", "hobby.py"], [("Curve methods", "curve.py")],
     "exhaustive enumeration of command histories against a reference curve evaluator", GEN,
     state=[("last_c", "last control point", "curve.py Curve")])

prop("C23", "Layout hash and timestamp rewriting see only what they should",
     """gdsii_hash of a file depends only on the cells in it: it is the same for every library name, unit, timestamp,
     null padding and order of the cells, however the file is given, and different whenever any cell, its name
     or any byte of its contents differs; any hashlib engine can be used. set_gdsii_timestamp
     sets the timestamps of the library and of every cell to the given date and changes nothing else in
     the file, whatever the contents of its records, so that it equals the file written with that
     timestamp. get_gds_units returns the unit and precision of any file or stream.""",
     [INP, HIST],
     """all collections of up to 3 (4 thorough) cells of an alphabet whose contents look like record headers x dates x orders x units x
     names x paddings; every single byte of every record changed; elements of all alphabets written by gdspy; sequences of
     timestamps; 56 pairs of units""",
     """tests hash two files""",
     ["gdsiiformat.py", "library.py"], [("gdsii_hash, set_gdsii_timestamp, get_gds_units", "gdsiiformat.py / library.py")],
     EXH + " written by an independent encoder", GEN)

prop("C24", "Incremental, binary-cell and truncated streams are handled faithfully",
     """Every interleaving of write_cell and write_binary_cells of a GdsWriter, to any kind of file, gives a
     stream with exactly the structures written in that order, equivalent to the one write_gds gives for
     the same cells and binary cells, which is read back as the same library. get_binary_cells returns for each cell of any stream exactly its
     bytes. A stream truncated at any byte never yields wrong content silently: reading it
     raises an exception or gives only cells with complete names and the elements completely present before the cut, and the binary cells and units
     obtained from it are those of the whole stream. An output that fails after any number of bytes raises the error to the
     user, has received the start of the stream and leaves the library intact.""",
     [HIST, FAULT, "crash_points"],
     """all interleavings of up to 3 writes (4 thorough) out of 8; all collections of 3 (4) cells of an alphabet; every byte position of truncation of
     all libraries of up to 2 (3) cells with 7 contents (every element kind); every capacity of the output""",
     """tests write one file in one order and never truncate""",
     ["library.py", "gdsiiformat.py"], [("GdsWriter, get_binary_cells, _record_reader, read_gds, write_gds", "library.py / gdsiiformat.py")],
     "exhaustive enumeration of write interleavings, of every truncation point and of every point of failure of the output", GEN)

prop("C25", "SVG output draws every element with the layout's geometry",
     """write_svg of any cell with polygons (cell names of GDSII characters) gives well-formed XML in which, after applying all nested SVG
     transformations, the polygons (those of paths included) and labels of the whole hierarchy, references to missing
     cells left out, appear exactly once at their layout positions with y mirrored, multiplied by the scaling and rounded to the
     precision, with the classes of their layers and types, texts with their content, anchor, rotation, magnification and reflection. Every cell is defined
     once, every class drawn has the style requested or a default one, the view box, size and background are the bounding
     box with its padding. Nothing is written for a cell without polygons. Writing changes nothing in the layout.""",
     [INP, CONF],
     """360 combinations of scaling, precision, padding, background and styles, 4 kinds of files, all labels, 36 placements
     of references and arrays alone and in pairs (triples thorough), all hierarchies of 4 cells with up to 2 references per pair; texts with markup characters""",
     """tests only check that a file appears""",
     ["library.py", "polygon.py", "label.py", "path.py"], [("write_svg / to_svg", "library.py and elements")],
     EXH + " and an independent SVG interpreter", GEN)

prop("C26", "Bezier and Hobby interpolation pass through the points smoothly",
     """Smooth interpolation through any list of points without coincident neighbours (Curve.i/I,
     Path/FlexPath/RobustPath.smooth) passes through every given point in order along one cubic
     Bezier segment per pair, has continuous tangent there (closed curves included), has the
     requested tangent angles where given (each given within half a turn of the chords it
     meets), satisfies Hobby's equations for the given tensions and curls, and gives the same
     curve after translating, rotating, scaling, reflecting or reversing the points (or
     renumbering those of a closed curve). Bezier commands of any degree
     start and end at their end points, lie on the Bernstein curve, and are tangent to the
     control polygon at the ends. Curves whose velocity vanishes somewhere are out of scope.""",
     [INP, CONF],
     """all lattice point lists of 2 to 6 points without coincident neighbours x angle
     specifications x tensions x curls x cycle, with 6 to 7 equivalent problems each; all lattice
     control polygons up to degree 6""",
     """tests compare a few recorded curves""",
     ["hobby.py", "curve.py", "path.py"], [("hobby, _func_bezier", "hobby.py")],
     "exhaustive enumeration of lattice point lists against curve-theory invariants", GEN)

prop("C27", "Primitive shapes are the shapes they are named after",
     """Polygon, Rectangle, Round (disc, ellipse, ring, section; with any tolerance, number of points
     or max_points) and Text cover exactly the shape their arguments describe, once: every
     vertex of a Round is on one of its ideal outlines (or at the centre of a section without
     inner radius), in order and between the given angles (measured from the centre, also in ellipses),
     with exactly number_of_points vertices or a deviation within tolerance where it is not split
     into pieces, and never more than max_points per piece. A Text has the 94 printable glyphs
     of the font on a grid of a ninth of its size, characters advancing by 8/9 (11/9 vertically) of the size,
     new lines by 11/9 (8/9 vertically), tabs to the stops after 3, 7, 11... characters, unknown
     characters left blank, everything turned about its position. Rounds over more than a turn
     and pieces of less than three chords are out of scope.""",
     [INP, CONF],
     """all argument combinations over small alphabets including equal, swapped,
     negative and full-turn angles, elliptical radii, all characters and character pairs of the font
     and all strings up to length 5 over two letters, space, tab, newline, unknown""",
     """tests draw a few circles""",
     ["polygon.py"], [("Rectangle, Round, Text", "polygon.py")],
     "exhaustive enumeration of argument combinations against ideal outlines", GEN)

prop("C28", "Labels keep their text, anchor, place and transformation through every operation",
     """Label construction accepts exactly the documented anchors (in any letter case) and any
     array-like position, which it neither keeps nor changes. Through every sequence of translations, plain and
     transformed deep copies of the cell, writing and reading (by library or GdsWriter, converting
     units or not), queries, flattening, removal of other labels and edits of its attributes,
     a label keeps its text, anchor, layer, texttype and properties; its position follows
     the transformations exactly (rounded to the precision when written), and its own
     rotation, magnification and reflection change only by transformed copies of its cell and where get_labels is asked
     to set them (set_transform), each then composed with that of the copy, reference or array. The queries and copies never
     change the label they started from.""",
     [HIST, INP], """6 labels x all sequences of 25 operations up to depth 3 (thorough 4), of 11 operations up to
     depth 4 (5); every anchor name and pair of anchor words; all forms of positions""",
     """tests check one label""",
     ["label.py", "library.py"], [("Label", "label.py"), ("get_labels, copy, flatten", "library.py")], EXH, GEN)

prop("C29", "Queries and operations never modify or alias the user's objects",
     """No query (get_polygons, get_polygonsets, get_paths, get_labels, bounding boxes, areas,
     layer and type lists, to_gds, to_svg, write_gds, write_svg, str, copy) and no operation
     (boolean, offset, slice, inside, gdspy.copy, deep Cell.copy) modifies its operands or
     arguments; gdspy.copy and translate give the object moved by exactly the vector. Nothing they return shares mutable state with the layout: changing a returned
     array, list, dictionary or element changes neither the layout nor any later result, and
     editing the layout changes no result obtained before. The elements, arrays, lists and dictionaries of one result
     (of a query, of reading a file, of flatten, of constructors) share no mutable state with each other. Constructors and construction
     methods do not keep references to the arrays and lists they are given, so changing
     such an argument after the call changes nothing. (Shared by design, hence excepted: cells
     and references keep the cells and elements added to them; shallow Cell.copy keeps the elements;
     get_dependencies and top_level return the cells themselves.)""",
     [HIST],
     """all queries and all pairs of them, with the results ruined and everything asked again;
     all pairs (held result, edit of the layout); every constructor or method with a mutable
     argument; all pairs of changeable parts of each result; all sequences of operations where each result is the next operand""",
     """aliasing is only visible after a mutation of a previous result, which no test does""",
     ["library.py", "polygon.py", "path.py", "operation.py", "curve.py"],
     [("copies made at API boundaries", "get_polygons of all classes")],
     "exhaustive enumeration of call/mutation pairs with state fingerprints", GEN)

prop("C31", "PolyPath polygons cover exactly the described strips",
     """For every PolyPath (any points, a width or list of widths and a distance or list of distances
     of its end points, repeated when shorter than the points) whose sections are longer than their corners, the polygons
     cover for each parallel path, on its layer and datatype (lists repeated), the strip between the
     borders at half its width on both sides of the points shifted sideways by a multiple of the distance (symmetrically),
     the borders continued to their intersection at corners (or, for bevels of single paths,
     cut straight between their ends), with flush, extended (by half the width) or round ends. With a limit above 4 no polygon
     besides round ends has more than max_points vertices. The points given are not changed; unknown corner and
     end names raise ValueError (for paths with corners).""",
     [INP], """all 8-direction spines of up to 3 (4) sections and slight turns x width profiles x distances x 1 to 3 paths
     x 3 ends x 2 corners; vertex limits 4 to 39; layer lists; argument forms""",
     """the stable tests build two PolyPaths""",
     ["polygon.py"], [("PolyPath", "polygon.py")], EXH, GEN)

prop("C32", "The global library and the deprecated shortcuts behave as the library",
     """Cells made by Cell(name), Cell.copy or new_cell enter the global library (gdspy.current_library) under their name
     when and only when it is enabled and they are not excluded; a name already present there is refused with
     ValueError. extract adds to it the cell (given or named) and all its dependencies and returns the cell, refusing
     names of other cells unless told to overwrite, and reading a file never touches it. gdspy.write_gds writes exactly the chosen
     or all cells of the global library with the name, unit and precision given, byte for byte as GdsLibrary.write_gds does.
     No such operation changes any other library or cell than stated. gdspy.fast_boolean gives the result of boolean.""",
     [HIST], """all sequences of 30 operations up to depth 3 (4); all boolean operations and arguments""",
     """no test looks at the global library after a second operation""",
     ["library.py", "__init__.py"], [("Cell.__init__, extract", "library.py"), ("write_gds, fast_boolean", "__init__.py")], EXH, GEN)

prop("C33", "Malformed and out-of-range operands are refused, never computed on",
     """boolean, offset, slice, inside, PolygonSet.fracture (max_points above 4, a polygon above the limit) and gdspy.clipper.clip and _chop raise an ordinary exception (TypeError, ValueError,
     IndexError, KeyError or OverflowError) whenever, at any place of any operand, a polygon is not a sequence, a point is not a sequence of two,
     or a coordinate is not a number, is NaN or infinite or beyond the 62-bit grid of the precision; likewise for a distance
     that is not a number or is beyond the grid, a position that is NaN or not a number, and an unknown operation or joint. The process is never
     ended, no SystemError is raised, and no reference to an operand or a part of it is lost or kept, whether the
     call is refused or not; freed results release their memory.""",
     [INP], """every kind of malformed coordinate (18), point (14) and polygon (7) x every place of two polygons in lists, tuples and arrays x
     18 operations and operands; all pairs of places; all distances, positions, operations and joints of an alphabet of bad ones""",
     """the stable tests give well-formed operands only""",
     ["clipper.cpp", "operation.py"], [("parse_polygon, parse_polygon_set, clip, offset, inside, _chop", "clipper.cpp"), ("boolean, offset, slice, inside", "operation.py")], EXH, GEN)

prop("C34", "Values the stream cannot hold are refused, all others are stored exactly",
     """write_gds and GdsWriter write each coordinate, width and path extension as the nearest 32-bit number of database
     units, each layer, datatype, texttype, column and row count and property attribute as a signed 16-bit number, each rotation, magnification and unit as an
     8-byte real (relative error at most 2^-51), and each text, name and property value as it is, whenever the value is in the range of the
     field (columns and rows at least 1; strings of up to 65530 characters). A value outside that range, one that is not a
     number, or a non-integer in an integer field is refused with an exception: it never reaches the file as another value.""",
     [INP], """every field of every kind of element (polygons of 4 and of 8195 vertices, both kinds of path records, labels, references,
     arrays) x values at and beyond the limits of 16-, 32- and 64-bit integers and 8-byte reals x both writers; names and units""",
     """the stable tests write small numbers""",
     ["gdsiiformat.py", "polygon.py", "path.py", "label.py", "library.py"], [("_gdsii_coordinates, _eight_byte_real", "gdsiiformat.py"), ("PolygonSet.to_gds", "polygon.py"), ("FlexPath.to_gds, RobustPath.to_gds", "path.py"),
     ("Label.to_gds", "label.py"), ("CellReference.to_gds, CellArray.to_gds, GdsLibrary.write_gds, GdsWriter", "library.py")], EXH, GEN)

prop("C35", "The numeric type of coordinates and parameters changes nothing",
     """Every constructor, command, transformation, operation and query gives the same result for numbers given as Python floats
     and for the same numbers given as Python integers or numpy scalars, and for points given as lists, tuples, or numpy
     arrays of any memory layout, byte order and type that holds them exactly (integers of 8 to 64 bits, signed or not, half, single, double and extended
     precision): no coordinate wraps around, is truncated or loses precision because of the type it was given in. Elements that
     keep single positions as given (labels, references) are claimed for 32-bit signed integers and larger types, and scalar parameters for Python
     numbers, doubles and signed integers of 32 bits or more.""",
     [INP], """all public constructors, drawing commands, transformations, boolean operations, queries and writers of elements (39 uses) x 9 sets of points from 7 to 31
     bits, with and without negative coordinates x 20 types and forms, whatever holds them""",
     """the stable tests give Python numbers and arrays of doubles""",
     ["polygon.py", "path.py", "curve.py", "operation.py", "library.py"], [("PolygonSet, Polygon, Rectangle, Path", "polygon.py"), ("FlexPath, RobustPath", "path.py"), ("Curve", "curve.py"),
     ("_gather_polys", "operation.py"), ("CellReference, CellArray", "library.py")], EXH, GEN)

prop("C30", "The layout viewer displays the layout it is given",
     """The interactive viewer shows exactly the geometry, labels and bounding boxes of the
     cells of its library at the selected depth, with hidden layers hidden.""",
     [HIST, INP], "all user interactions",
     "the viewer has no tests", ["viewer.py"], [("LayoutViewer", "viewer.py")],
     "none", "")

NA = {
    "C30": "The viewer is a Tk window: there is no display, no window system and no Tk "
           "event loop to control in the sandbox, and what it shows is only visible on a "
           "screen; there is no state to enumerate without replacing the toolkit itself.",
}


def main():
    checks, na = [], []
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            t, n = p.pop("_t"), p.pop("_n")
            f.write(json.dumps(p) + "\n")
            if p["id"] in NA:
                na.append(dict(property=p["id"], reason=NA[p["id"]]))
                continue
            mod = os.path.join(HERE, "checks", p["id"].lower() + ".py")
            if not os.path.exists(mod):
                na.append(dict(property=p["id"], reason="no check registered yet; see DESIGN.md"))
                continue
            checks.append(dict(
                property=p["id"],
                quick_cmd="bash check.sh %s quick" % p["id"],
                thorough_cmd="bash check.sh %s thorough" % p["id"],
                evidence_file="evidence/%s.json" % p["id"],
                technique="model checking: " + t, level="model_checking", level_note=n,
            ))
    m = dict(
        version=1,
        setup_cmd="bash setup.sh",
        checks=checks, not_applicable=na,
        notes="bash check.sh <ID> <tier> [--only GROUP] [--replay FILE]; see DESIGN.md",
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(checks), "checks")


main()
