"""How each property is decided: the input space in words, and the oracle."""

HOW = {
    "C01": "Arbitrary bit patterns fill every array; `writenek` writes to a virtual file, `readnek` reads it. Oracle: each number read is the number written (wdsz 8, double data), or z3's IEEE rounding of it to single precision, bit for bit; the other attributes are equal.",
    "C02": "The cells of the written file are compared one by one with a layout built independently in the harness (header columns, tag, map, blocks in map order, extrema). Extrema are decided over reals: each stored minimum is below every value and equal to one.",
    "C03": "The harness builds a conformant file from symbolic scalars (its own layout code, not the writer's) and compares what `readnek` returns at every element, component and point. Map entries are symbolic permutations, part files hold some of the elements. Wrong tags have to raise.",
    "C04": "The same symbolic file is read twice, whole and with a symbolic choice of names to skip; skipped variables are zero and all others equal bit for bit.",
    "C05": "Counts, steps and time are symbolic numbers printed as tokens; the printed header has 132 characters, and `read_header` and the constructor return the numbers and variables the header was made of. Codes and component counts are enumerated by forks.",
    "C06": "Symbolic vertices, parameters (any bits), types picked per face and edge. Oracle: `readre2(writere2(mesh))` has the same values, bits and types.",
    "C07": "Written: cells compared with the format built in the harness, with section counts. Read: files built in the harness with records in every order, from a symbolic choice of element, face, field, type, and the mesh compared with what the records say.",
    "C08": "Numbers are symbolic reals printed as tokens with a format (so overflow of a column, missing blanks and lost digits are visible); reading gives each back within half a unit of the last digit the column holds. Counts across the format changes (999/1000, a million) are reached with real or announced counts.",
    "C09": "A deep snapshot (arrays by cell, lists, numbers) before and after each writer, compared in full; the same data written twice gives identical cells. VTK goes through a recorder of what it is given.",
    "C10": "File built in the harness from arbitrary 32-bit words; every entry returned equals the word stored; six wrong tags raise.",
    "C11": "Amplitudes are symbolic reals, so the transform is linear in them: the value at each grid point is compared with the Fourier series evaluated by the harness, for any amplitudes (within 1e-9).",
    "C12": "File built in the harness from arbitrary bits; sizes, coordinates and values returned are compared in Fortran order.",
    "C13": "The name is a string of symbolic code points; the code's own regular expression, taken from Python's parse tree, is decided against the harness's definition of the form; the plugin and opener have to agree.",
    "C14": "A box file is built with symbolic spacings and origin and a symbolic order of elements; each variable of the dataset is compared at the coordinates of each point; bent elements have to raise; two and three files opened together in every order are compared at each time. xarray is modelled, and replayed with the real one.",
    "C15": "Points, attributes and cells given to the VTK recorder are compared with the element's own arrays, and cells with the corner order VTK documents.",
    "C16": "Every limit is below (above) each value and equal to one of them, over reals.",
    "C17": "Formulas of the harness for means and lengths, compared within 1e-9; the shortest edge as one of the lengths, and below all.",
    "C18": "A mesh with symbolic conditions, partners, position and tolerance; the outcome of `check_connectivity` (accepts or raises) is compared with the definition evaluated by the harness, and the mesh with its snapshot.",
    "C19": "Types of several faces at a time are symbolic; accepted exactly if none is blank.",
    "C20": "Gaps are symbolic; touching is decided by the harness from the corners; every condition, partner, element map and count of the result is compared with the expected merge; the other mesh with its snapshot.",
    "C21": "As C20, on one mesh; then deletion and regeneration.",
    "C22": "The set kept is a symbolic choice of subset and order; every attribute of each kept element, renumbered partners, replacement conditions and the element map are compared with the expected sub-mesh.",
    "C23": "Symbolic vertices, heights, curvature and conditions; vertices, midpoints, conditions, partners, end conditions and map of each layer are compared with the definition.",
    "C24": "Symbolic heights, widths and curvature. Volume: the elements, cut into tetrahedra, add up to the volume of the domain, and each is right-handed at each corner; matching faces coincide point by point and edge by edge; curved edges lie on the original curve, splitting lines halfway; layer counts by region; refusals.",
    "C25": "Symbolic rectangle; every vertex equals the expected lattice point, and connections, periodicity and conditions those of the lattice.",
    "C26": "Symbolic radius and square size; right-handedness of every corner, connections by coincidence of faces, arcs' radii, ends on the circle and conditions; the elements' areas add up to that of the regular polygon inscribed in the circle; for even counts the default first ring has a corner one spacing off the square.",
    "C27": "Symbolic vertices, midpoints and coefficients of the transformation; images computed by the harness.",
    "C28": "The angle is any point of the unit circle; each point and midpoint equals the rotation formula, and the inverse rotation restores the mesh.",
    "C30": "The sequence of operations and their options are symbolic choices, the geometry has symbolic sizes; after each step the invariants of the statement are asserted, and at the end the .re2 round trip.",
    "C31": "Deep snapshots of all inputs before and after; then every array, list and number of the result is overwritten with fresh symbols and the inputs are compared again (and the other way round), so that any shared cell shows.",
    "C32": "One instance of the loop per path: the state of the iteration is its ratio, which is havocked for later steps (arbitrary ratio in the bound), so the assertion holds at whichever step the loop ends: the lengths of the spacing with the returned ratio add up to the total to the tolerance asked for.",
    "C33": "Midpoints are checked by their definition: mean of the ends, the stored midpoint, or the point at the radius on the perpendicular bisector; circles by the distances of three points.",
    "C29": "Reading: files built line by line in the harness as prenek and genbox print them, with symbolic printed numbers, any order of the curved sides, counts of parameters, scalars and switches by forks; the mesh is compared with what was printed. Writing: the lines of the written text are taken apart by the columns of the format and compared with the mesh.",
    "C34": "The number of bytes available is a symbolic integer (every cut); the reader has to raise.",
    "C35": "A plain description of the mesh is kept beside it and cut down at each step to what the format of that step holds; after each step the mesh read is compared with the description, exactly or within the digits printed so far. SIMSON fields and other word sizes are compared value by value, bit for bit.",
    "C36": "Everything the call is given is written down before it, symbolic values included, and compared after the refusal; files there before hold symbolic bytes, and their names and contents are compared.",
    "C37": "Two versions of a file or of the arguments, with symbolic contents, are used in turn, and every result is compared with what its own version says, right after the call and after the later ones; results are overwritten to see whether others change. Other histories run the scenarios of the other properties one after another in the same process, in every order.",
}
