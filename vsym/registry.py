"""What each check encodes, within which bounds, and what it takes for granted."""

COMMON = [
    "Python/numpy semantics as modelled by vsym (every explored path is also replayed on the unmodified code)",
    "real arithmetic is exact in the solver; comparisons of computed floats use a stated tolerance",
]

PROPS = {}


def prop(pid, module, functions, bounds, outside, assumptions=()):
    PROPS[pid] = {"module": module, "functions": functions, "bounds": bounds, "outside": outside,
                  "assumptions": COMMON + list(assumptions)}


prop("C01", "c01",
     ["neksuite.field.writenek", "neksuite.field.readnek", "neksuite.field.read_header", "neksuite.field.Header", "core.HexaData", "core.Elem"],
     "1-3 elements with every element map of those sizes, 12 with two maps and 300 in reverse, maps of 1-3 of four elements and with numbers of 0, lr1 up to (4,3,5) ((8,8,8) thorough), up to 12 scalars, 2D and 3D, all float bit patterns, both byte orders, word sizes 4 and 8, memory precision 4 and 8",
     "more elements or points, host byte order other than little endian")

prop("C02", "c02", ["neksuite.field.writenek", "neksuite.field.Header"],
     "1-3 elements (4 thorough) with every element map of those sizes and 12, 280 and 300 in reverse, maps of 1-3 of four elements and with numbers of 0, up to 12 scalars, lr1 up to (2,3,2) (5,4,6 thorough), every float bit pattern in the data, |time| <= 1e12, both byte orders, word sizes 4 and 8, memory precision 4 and 8; extrema for |values| <= 100; also over an older, longer file of the same name",
     "more elements or points; extrema of NaN data")
prop("C03", "c03", ["neksuite.field.readnek", "neksuite.field.read_header", "neksuite.field.Header", "core.HexaData", "core.Elem"],
     "1-4 elements and 12, files holding all of them, 2 of 4 or 2 of 2000 (with numbers of 0 in the map as well), up to 12 scalars, every element map of up to 3, lr1 up to (2,3,2), every float bit pattern, both byte orders and word sizes",
     "more elements or points; wrong tags other than the nine tried")
prop("C04", "c04", ["neksuite.field.readnek"],
     "2-4 elements, subsets of the variables of each group and across groups, any of the names of each, or both (every subset of eight variables in the thorough tier)",
     "more elements")
prop("C05", "c05", ["neksuite.field.Header", "neksuite.field.read_header"],
     "every combination of variables, orders 2-99, element counts up to 1e10, steps below 1e9, file ids below 1e6, |time| <= 1e15, scalars 1-99",
     "numbers that do not fit their column")
prop("C06", "c06", ["neksuite.mesh.writere2", "neksuite.mesh.readre2", "core.HexaData", "core.Elem"],
     "1-3 elements, 12, 260 and 300 (a few of those symbolic), 2D and 3D, 1-3 condition fields, every float bit pattern, any of twelve condition types on up to three faces (eight thorough) and six curvature types on up to three edges at a time, both byte orders, over an older, longer file",
     "more elements; condition types longer than three characters")
prop("C07", "c07", ["neksuite.mesh.writere2", "neksuite.mesh.readre2"],
     "1-2 elements, 12 and, when writing, 300 (3 with any records thorough), 0-3 condition fields, up to two records per field and two curved edges in any order (three thorough), every float bit pattern, both byte orders",
     "more elements or records; garbage after the type of a curved side")
prop("C08", "c08", ["neksuite.mesh.writerea", "neksuite.mesh.readrea", "core.HexaData", "core.Elem"],
     "1-3 and 999/1000 elements, 2D and 3D, 0-3 condition fields, up to three conditions of any of seven types and two curved edges at a time, every number that is 0 or of magnitude 1e-20..1e20, and four with three-digit exponents; the columns of meshes of a million elements on the first two of them; elements of 3 or 4 points per direction; over an older, longer file",
     "other element counts",
     ["printing a number with n significant digits and reading it back is off by at most half a unit of the last digit"])
prop("C35", "c35", ["neksuite.mesh.writerea", "neksuite.mesh.readrea", "neksuite.mesh.writere2", "neksuite.mesh.readre2", "neksuite.field.writenek", "neksuite.field.readnek", "simsonsuite.readdns", "meshtools.gen_box", "meshtools.extrude"],
     "meshes of 1-2 elements in 2D and 3D with 0-3 fields, any vertices, a curved edge of three types and up to two conditions of three types, and generated boxes, through nine chains of two or three of the formats .rea, .re2 and field file; fields of 1-2 elements of 2 points per direction used as meshes; fields from one word size to the other, every float bit pattern; SIMSON boxes of up to 32 points with up to two modes",
     "longer chains; more elements",
     ["printing a number with n significant digits and reading it back is off by at most half a unit of the last digit"])
prop("C29", "c29", ["neksuite.mesh.writerea", "neksuite.mesh.readrea", "core.HexaData", "core.Elem"],
     "reading: 1-3, 12, 999 and 1000 elements in 2D and 3D with 0-5 condition fields, up to three curved sides in any order, two conditions of any of six forms, 0-200 parameters, 0-4 scalar lines, 1-13 switches; writing: 1, 2, 12, 999 and 1000 elements with 0-5 fields; every number that is 0 or of magnitude 1e-20..1e20",
     "other element counts; meshes of a hundred thousand elements or more (C08 has the columns of meshes of a million)",
     ["printing a number with n significant digits and reading it back is off by at most half a unit of the last digit"])
prop("C10", "c10", ["neksuite.map.readma2"],
     "1-5, 7, 12, 20, 100, 300 and 1500 elements, 2D and 3D, every 32-bit integer (also beyond 2^24), header counts up to 9 digits, both byte orders",
     "more elements; wrong tags other than the eight tried")
prop("C11", "c11", ["simsonsuite.readdns", "core.HexaData", "core.Elem"],
     "boxes up to 6x3x6 (4x3x8 thorough), 0-2, 5 and 40 scalars, times of either sign, arbitrary amplitudes of the mean and of up to 2 (5 thorough) modes with 0 < kz < nz/2 at once, flow types 1,2,3,-1,-2,6-9,+-20, both byte orders",
     "modes with kz = 0 < kx, kz = nz/2 or negative kz, whose storage convention the repository does not document; flow types 4 and 5",
     ["the inverse transform is evaluated with double-precision sine and cosine coefficients, compared within 1e-9"])
prop("C12", "c12", ["simsonsuite.readplane"],
     "1D, 2D and 3D files of up to 12 points (60 thorough), every float bit pattern, both byte orders",
     "larger files; byte order of a little-endian file whose first word exceeds 1000")
prop("C34", "c34", ["neksuite.field.readnek", "neksuite.field.read_header", "neksuite.mesh.readre2", "neksuite.map.readma2", "simsonsuite.readdns", "simsonsuite.readplane"],
     "every cut of thirteen file shapes of up to 1500 bytes, both byte orders",
     ".rea files (text, no end mark); cuts between two condition fields of an .re2 file, which leave a valid file; cuts in the extrema after a field file's data; skip_vars")
prop("C16", "c16", ["core.DataLims", "core.HexaData.lims"],
     "1-3, 5, 12 and 300 (six of them symbolic) elements of up to 8 points, one of up to 27, every value in [-100, 100], each limit on its own and all at once",
     "NaN values; larger meshes", ["values enter comparisons only, so the range carries no information"])
prop("C17", "c17", ["core.Elem.centroid", "core.Elem.face_center", "core.Elem.smallest_edge", "core.HexaData.get_points"],
     "elements of up to 6x5x7 points with every coordinate in [-100, 100]; smallest edge of every quadrilateral, of every brick with one or two vertices moved anywhere in [-4, 4], and of any hexahedron as far as its 150 s reach; lists of points of up to seven elements and of 300",
     "other large meshes", ["comparisons up to 1e-9"])
prop("C18", "c18", ["core.HexaData.check_connectivity", "core.Elem.face_center", "core.Elem.smallest_edge"],
     "meshes of 1-4, 6 and 300 bricks (12 thorough), up to two conditions with any of four types, any partner element (also outside the mesh) and any partner face (from -6 to 13, also one the element does not have) at a time; a brick moved by any amount in [-1.5, 1.5] per axis, scaled by 0.25-4, with any tolerance in [0.001, 1]; moved by multiples of 1/8 with a tolerance of zero; elements whose vertices and faces are numbered as if turned; fields of up to 5 points per direction with data",
     "larger meshes; distances within 0.1 % of the tolerance, other than zero for a tolerance of zero")
prop("C19", "c19", ["core.HexaData.check_bcs_present"],
     "1-3 elements, 12 and 300, 2D and 3D, 0-3 fields, four or eight faces at a time with any of six types",
     "larger meshes; more faces at a time")
prop("C20", "c20", ["core.HexaData.merge", "core.HexaData.offset_connectivity", "core.Elem.face_center", "core.Elem.smallest_edge"],
     "meshes of 1-6 bricks, and of 35 and 30, put next to each other with any gap of up to 0.4 per axis, 0-3 fields, the same number in both meshes or not, periodic and outer conditions, every element map of those sizes; gaps of multiples of 1/8 without tolerance; bricks numbered as if turned; fields of up to 5 points per direction with data",
     "gaps within 0.1 % of the tolerance; more elements")
prop("C21", "c21", ["meshtools.generate_internal_bcs", "meshtools.delete_internal_bcs", "core.Elem.face_center", "core.Elem.smallest_edge"],
     "2D and 3D meshes of 2-4, 8, 9 and 20 bricks, one of them moved by up to 0.4 per axis and scaled by 0.25-4, or all of any size in 0.5-2; 0-3 fields; up to three conditions of any of four types at a time, in all fields or in one; moves by multiples of 1/8 without tolerance; elements numbered as if turned; fields of up to 5 points per direction with data",
     "distances within 0.1 % of the tolerance; a face close to two others; more elements")
prop("C22", "c22", ["meshtools.keep_elements", "core.HexaData.update_ncurv"],
     "meshes of 2-4 bricks with every subset in every order, and of 12 and 300 with a few subsets, any of three curvatures on the edges of three; up to two conditions (three thorough) with any of three types and any partner, three replacement conditions; lists of up to four numbers with repetitions; negative and too large numbers (refused); elements numbered as if turned; fields of up to 5 points per direction with data; faces without a condition",
     "an empty subset; more elements")
prop("C23", "c23", ["meshtools.extrude", "core.HexaData.offset_connectivity", "core.HexaData.update_ncurv", "meshtools.delete_internal_bcs"],
     "2D meshes of 1-4, 9, 12 and 100 elements with any vertices in [-50, 50], 1-5 layers of any increasing heights, 0-3 fields, up to four edges of any curvature type '', 'm' or 'C' (six thorough), up to four conditions of five types with any partner",
     "spherical curvature, which has no meaning in 2D; more elements or layers")
prop("C24", "c24", ["meshtools.extrude_refine", "meshtools.extrude_mid", "meshtools.keep_elements", "meshtools.extrude", "core.HexaData.merge", "meshtools.edge_mid"],
     "rows of elements along either axis, split in either direction, 4 layers of any heights in 0.5-2 or any element widths in 0.5-2; two edges of the split column curved as a midpoint anywhere within 0.1 lengths or as an arc of either sign; up to three splits, 8, 12 and 16 layers of fixed heights, up to three rows of elements, split at the first, middle and last of every four (of any heights thorough); the splitting line at any place of the elements it splits; periodicity in some of the fields only; elements numbered as if turned",
     "spherical curvature; curved splitting lines; more elements or layers")
prop("C25", "c25", ["meshtools.gen_box", "core.HexaData"],
     "1-3 by 1-3, 5x1, 1x6, 4x5, 7x6 and 20x15 elements, every rectangle with corners in [-100, 100] and sides of 0.01 to 50, 0-5 fields, any of five conditions on the sides",
     "larger meshes")
prop("C26", "c26", ["meshtools.gen_circle", "meshtools.rotate_2d", "core.HexaData.merge"],
     "1-3 elements per side and 1-3 rings (also 7 and 2), every radius in [0.1, 50] and every square of 0.3 to 0.8 of the diameter, five curvature functions and three spacing functions, 0-2 fields; the default spacing for every radius with one ring or a coarse square, and for twelve sizes with up to four elements per side and five rings",
     "the default exponential spacing for other sizes (a Newton iteration with logarithms); other functions; larger meshes")
prop("C09", "c09", ["neksuite.field.writenek", "neksuite.mesh.writere2", "neksuite.mesh.writerea", "vtksuite.hexa2vtk", "vtksuite.writevtk"],
     "fields of 1-3 elements of either precision and word size, both byte orders, every element map and float bit pattern; meshes of 1-2 elements with any of twelve (.re2) or seven (.rea) condition types on 1-3 faces and any curvature type on one or two edges, also with any out-of-date count of curved edges and header numbers",
     "larger data")
prop("C28", "c28", ["meshtools.rotate_2d"],
     "every angle (as its cosine and sine) and seven particular ones, every centre in [-20, 20], every point and midpoint in [-50, 50], 1-2 elements of up to 24 points, 7 of 8 and 300 of 4 in 2D and 3D, any of four curvature types on two edges or midpoints on all twelve",
     "larger meshes", ["the cosine and sine of an angle are any point of the unit circle"])
prop("C32", "c32", ["meshtools.exponential_refinement_parameter"],
     "2-5 elements (8 thorough) and totals of 1-20 times the first length: the first step with three tolerances; any later step, from any ratio above 0 and away from one, with a tolerance of zero (for two elements also 1e-14 and from ratios next to one; for three and four thorough); one instance of each path runs to its end in the replays, and so do 336 iterations for particular numbers of elements up to 100 and totals up to 1e7 first lengths, and 165 up to 3000 elements with totals near those of equal lengths",
     "that the iteration ends for every request; more elements", ["the logarithm is any function between 1 - 1/x and x - 1", "the state of the iteration is the ratio alone"])
prop("C33", "c33", ["meshtools.edge_mid", "meshtools.edge_circle"],
     "every edge of an element with any vertices and midpoints in [-20, 20]; circular edges of the first eight, in five directions, of any position and length in 0.5-4, with radii of 0.51 to 10 lengths of either sign; midpoints 0.02 to 0.49 lengths off the edge, and six as close as 0.0002; circles through three points of vertical and slanted planes; edges of spheres of any centre and radius in 0.5-4, between five directions; elements of up to 5 points per direction",
     "circular arcs on vertical edges; other directions")
prop("C27", "c27", ["meshtools.map2D", "meshtools.edge_mid", "core.HexaData.update_ncurv"],
     "2D meshes of 1-4, 12 and 300 elements (9 thorough) with any vertices and midpoints in [-5, 5], any affine, bilinear or (three coefficients) quadratic transformation and four fixed ones, any of three curvature types on two edges (four thorough), any of seven conditions on two faces (any of four on all four), both options either way, 0-2 fields; fields of up to 5 points per direction with data",
     "spherical curvature; transcendental transformations; larger meshes", ["arcs are of particular radii between particular vertices"])
prop("C31", "c31", ["meshtools.extrude", "meshtools.extrude_refine", "meshtools.extrude_mid", "meshtools.map2D", "core.HexaData.merge", "core.HexaData.check_connectivity", "core.HexaData.check_bcs_present", "core.DataLims", "core.Elem.face_center", "core.Elem.smallest_edge", "core.HexaData.get_points", "meshtools.edge_mid", "meshtools.edge_circle", "meshtools.gen_box", "meshtools.gen_circle", "meshtools.keep_elements"],
     "meshes of 1-3 elements, 0-3 fields, with arbitrary vertices, curvature types, conditions and parameters; every array, list and number of the result replaced afterwards by arbitrary other values",
     "larger meshes; what user functions passed in do themselves")
prop("C13", "c13", ["dataset.can_open_nek_dataset", "dataset.nek_ext_pattern", "dataset.PymechXarrayBackend.guess_can_open", "dataset.open_dataset"],
     "every string of 0-16 characters (80 thorough) of all of Unicode but NUL and the surrogates, and every continuation of six given beginnings by up to 6 characters",
     "longer names", ["the regular expressions of the code are translated from the parse tree of Python's own compiler, their character classes taken from its engine"])
prop("C14", "c14", ["dataset._open_nek_dataset", "dataset._NekDataStore", "dataset.open_dataset", "dataset.open_mfdataset", "dataset.PymechXarrayBackend.open_dataset", "neksuite.field.readnek"],
     "boxes of 1-8 and 12 elements of 2x2x2 to 3x3x3 points in any order of the file, with any spacing of 0.001-5 and origin, or of 2e-7 to 9e-7 near the origin, any values bit for bit, both byte orders and word sizes; single elements bent at one or two points by 1e-5 to 3; up to three files of one mesh in every order, opened together; through the plugin of xarray as well",
     "grid lines that differ between elements by rounding; more elements; files of different meshes, names given as a pattern", ["xarray's assembly of data sets is modelled, and the model validated by the replays with the real xarray"])
prop("C15", "c15", ["vtksuite.hexa2vtk", "vtksuite.writevtk"],
     "2D and 3D fields of 1-3 elements (6 thorough) of up to 4x3x2 and 3x3x3 points (5x5x5 thorough), of either word size, any values bit for bit, thirteen sets of variables, with and without downsampling",
     "fields without coordinates; what VTK itself does with the grid", ["the optional package tvtk, which is not installed, is replaced by a recorder of what it is given, in the replays too"])
prop("C30", "c30", ["meshtools.gen_box", "meshtools.gen_circle", "meshtools.extrude", "meshtools.extrude_refine", "meshtools.map2D", "meshtools.rotate_2d", "meshtools.keep_elements", "meshtools.delete_internal_bcs", "meshtools.generate_internal_bcs", "core.HexaData.merge", "core.HexaData.offset_connectivity", "core.HexaData.update_ncurv", "neksuite.mesh.writere2", "neksuite.mesh.readre2"],
     "every sequence of two of thirteen operations followed by one of four more (of three followed by one of four thorough), starting from boxes of 2 elements (6 thorough) of any width in 0.5-2 with one edge of any curvature, periodic, without connections, or with 0-2 fields, and from discs; refined extrusions of fixed meshes before and after other operations",
     "longer sequences; other options of the operations; merging a periodic side with one that is not",
     ["the geometry is symbolic in one width and one curved edge; the properties of the single operations decide the rest"])
prop("C36", "c36", ["neksuite.field.writenek", "neksuite.mesh.writere2", "core.HexaData.merge", "core.HexaData.check_connectivity", "core.HexaData.check_bcs_present", "core.DataLims", "meshtools.keep_elements", "meshtools.generate_internal_bcs", "meshtools.extrude", "meshtools.extrude_mid", "meshtools.extrude_refine"],
     "meshes of 2-4 elements with arbitrary vertices, curvature types and conditions; ten word sizes, five wrong shapes of elements and four of the geometry, with files of up to 160 arbitrary bytes there before or none; any place of a wrong element number among up to three others; an edge of no length in any element; wrong ends, layers, parameters and splitting lines",
     "refusals for lack of space or rights; larger meshes")
prop("C37", "c37", ["neksuite.field.readnek", "neksuite.field.writenek", "neksuite.mesh.readre2", "neksuite.mesh.writere2", "neksuite.mesh.readrea", "neksuite.mesh.writerea", "neksuite.map.readma2", "simsonsuite.readdns", "simsonsuite.readplane", "dataset.open_dataset", "vtksuite.hexa2vtk", "core.HexaData", "core.HexaData.merge", "core.HexaData.lims", "meshtools.gen_box", "meshtools.gen_circle", "meshtools.extrude", "meshtools.extrude_refine", "meshtools.map2D", "meshtools.rotate_2d", "meshtools.keep_elements", "meshtools.generate_internal_bcs", "meshtools.edge_mid", "meshtools.exponential_refinement_parameter"],
     "two files of each format, of the same and of different shapes, with any values, written and read in either order at the same and at different places; two or three calls of each operation with different data, repeated; two or three scenarios of the other properties, in any order, one after another",
     "longer histories; several processes or threads")
