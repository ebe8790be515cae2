"""The checks: one per property; the harness is harness/src/bin/<id>.rs."""
CHECKS = {
    "C03": {"note": "buffers of up to 3 points (4 over several pushes) with all bytes symbolic, 6 layouts plus 2 derived types, every accessor, index and range; buffers of 130 points (1100 of one byte) with all bytes symbolic, read at chosen indices and ranges."},
    "C04": {"note": "buffers of 3 points with all bytes and all written bytes symbolic, 6 layouts, every mutator, index and range; writes at chosen indices and ranges of 70, 130 and 300 symbolic points."},
    "C05": {"note": "histories of up to 3 operations (any operation, any argument within the buffer) from buffers of 0 to 2 symbolic points, both owning buffers; histories of up to 3 bulk operations on 130 symbolic points."},
    "C06": {"note": "every slice and slice of a slice of buffers of 3 and 4 symbolic points, every accessor and mutator; out-of-range indices over all 64 bits; slices of 100 and 61 of 130 symbolic points."},
    "C07": {"note": "sequences of up to 3 (thorough 4) next/nth calls with any 64-bit skip on 0 to 3 elements with symbolic bytes; equality of views of 0 to 2 elements; sorting up to 3 (4) points; iterators over 130 elements, views of 40 points that differ at any place, sorting 24 points with one symbolic key."},
    "C01": {"note": "layouts of up to 3 (thorough 4) attributes of every data type with symbolic sizes below 2^32, alignments 1 to 64, explicit members at symbolic offsets; layouts of 36 attributes, two of symbolic sizes, and one of 30 explicit members anywhere.", "must_cover": ["overlapping members", "disjoint members"]},
    "C10": {"note": "all 2^64 arguments of the bit functions; alignment of every value to every power of two for all types, to every alignment for u8, to alignments below 64 for u16, non-powers of two up to 31 for small multiples for the others.", "opts": {"query-ms": 60000}},
    "C11": {"note": "all finite coordinates of one or two boxes and a point (f64, f32, i32) for construction, containment, intersection, union, extension; centre, extent, cube on 8-bit integer coordinates, where the arithmetic is exact.", "must_cover": ["minimum above the maximum"]},
    "C08": {"note": "every pair of scalar types and of vector types with all values; converting views of up to 2 values for 8 pairs; 130 values of two conversions.", "must_cover": ["equal types", "compatible types", "incompatible types"]},
    "C09": {"note": "three pairs of layouts, seven pairs of similar layouts under any chosen mapping, sources and targets of up to 2 points (thorough 3) with all bytes symbolic, interleaved, columnar, external and slices; ranges of every 64-bit value; transformations with symbolic constants; sources of 130 symbolic points.", "must_cover": ["unfit ranges"]},
    "C02": {"note": "a catalogue of 600 derived structs (every ordered pair of field types as repr(C), samples of packed, packed(N), aligned and split representations, up to 23 fields, every builtin name); the bytes of the values are symbolic, the structs are enumerated because a derive macro runs in the compiler."},
    "C19": {"note": "single points of 6 layouts and of layouts with every scalar and vector type, all bytes and values symbolic; every attribute, byte position and memory size.", "must_cover": ["a value of the wrong size", "the attribute is in the memory", "the attribute is not in the memory"]},
    "C20": {"note": "columnar buffers of up to 3 points (thorough 5) of 6 layouts with all bytes symbolic, every predicate on their indices, into every kind of buffer; 130 symbolic points.", "must_cover": ["a target that is too short", "a target of another layout"]},
    "C21": {"note": "owning, external and sliced buffers of up to 3 symbolic points of 6 layouts; requests with every 64-bit index and range outside of them, unfit sizes, unknown attributes, unfit types."},
    "C22": {"features": "ser", "note": "every data type, definitions, members and layouts of up to 3 attributes with symbolic sizes, offsets, alignments and identifiers, boxes with all finite coordinates; as a serde_json value, as CBOR with named and with positional fields."},
    "C12": {"features": "alg", "note": "0 to 3 points (thorough 5) of every value of each comparable type (NaN excepted), three layouts, every kind of buffer and slices; requests for other attributes and types; 130 (1100) points of which one or two have any value."},
    "C13": {"features": "alg", "note": "0 to 3 points (thorough 4) at any finite positions stored as f64, f32, i32, u16 or u8 vectors, three layouts, every kind of buffer and slices; layouts without positions; 70 to 1100 points of which one or two are anywhere."},
    "C14": {"features": "alg", "opts": {"merge": 0}, "note": "clouds of 1 to 3 points: positions in eighths between -4 and 4 on one axis or quarters between -1 and 1 on all axes, several leaf sizes; every aggregated attribute: averages of any 16-bit values, maxima of any values, majorities of a few chosen values; 48 points in 10 voxels with 17 attributes."},
    "C15": {"features": "alg", "note": "clouds of 3 and 4 points, all draws of the sampled points (the random numbers and the outcome of parallel ties are choices of the executor), one or two iterations: any threshold for concrete clouds, any point of 8-bit coordinates for concrete or axis-parallel models; clouds of 256 and 300 points in two blocks. Distances that differ from the threshold by 1e-9 or less may count either way."},
    "C16": {"features": "alg", "opts": {"merge": 0}, "note": "clouds of 0 to 5 points with small whole coordinates (on which the arithmetic of the hull is exact); 2 or 3 of the points anywhere in a small grid at once, or one anywhere in a grid of 128^3 at any place in the order; 40 known points around one that may be anywhere in a row, and 24 in a plane."},
    "C17": {"features": "alg", "note": "0 to 3 points; PROJ itself is not part of this repository: the projection is a stand-in that tells apart coordinates, axes, directions and reference systems, or an affine map (for bounds)."},
    "C18": {"features": "alg", "opts": {"merge": 0}, "note": "clouds of up to 8 points with whole coordinates; the eigenvalues go through trigonometric functions, which have no symbolic semantics, so clouds that are not flat have a known shape and symbolic displacements, orders and other points; flat ones have symbolic shapes; points that are no numbers among others; 16, 40 and 600 points."},
    "C24": {"features": "io", "note": "files of up to 3 symbolic points of 6 layouts in one or two writes, from rows and columns, read at once, in parts, into 5 other layouts, after any 64-bit seek, relative to a centre; the bytes of the file; writes after a flush, targets that take few bytes per call; tables of up to 3 entries at every position modulo 8; 300 symbolic points in three reads. The modules tiles3d and base of pasture-io are compiled as part of the harness, since pasture-io as a whole does not build here.", "must_cover": ["a position before the first point", "a position behind the last point"]},
    "C25": {"features": "io", "entry_opts": {"q_many_lines": {"max-steps": 400000000}}, "note": "every value of every integer column and flag as text and back; arbitrary ASCII text of up to 3 characters in a column; any letter in a format; 8 formats with every column and 4 delimiters; files of up to 3 lines in two reads; targets with other attributes; 20 numbers with precisions 0 to 8 (formatting of floats is not symbolic); 50010 lines with symbolic ones at the border of the writer's chunk. The modules ascii and base of pasture-io are compiled as part of the harness, since pasture-io as a whole does not build here.", "must_cover": ["a number", "not a number of the type"]},
}
NOT_APPLICABLE = {}
for _i in ("C23",):
    NOT_APPLICABLE[_i] = "the las modules of pasture-io do not build in this sandbox (the crates las, laz and their dependencies are not in the offline cache), so its code can be neither compiled to the intermediate representation nor replayed"
