"""Writes properties.jsonl and MANIFEST.json from the table below and the registry of checks."""

import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
from vsym import registry  # noqa: E402

FIELD = "src/pymech/neksuite/field.py"
MESH = "src/pymech/neksuite/mesh.py"
MAP = "src/pymech/neksuite/map.py"
CORE = "src/pymech/core.py"
TOOLS = "src/pymech/meshtools.py"
SIM = "src/pymech/simsonsuite.py"
DS = "src/pymech/dataset.py"
VTK = "src/pymech/vtksuite.py"

# id: (title, statement, over, why tests cannot settle it, [(mechanism, file, where)])
T = {}
T["C01"] = (
    "A field written to disk and read back is the same field",
    "Writing a field to a Nek5000 field file and reading that file returns the same dimension, sizes, variables, time, step, element map, coordinates, velocity, pressure, temperature and passive scalars, element by element, whatever the order of the elements in the map and also when the field holds only part of the elements. "
    "With a word size of 8 the values come back bit for bit, with a word size of 4 they come back rounded once to single precision, and both byte orders and both in-memory precisions behave alike.",
    ["inputs", "configurations"],
    "A test writes a handful of fields; the round trip has to hold for every value, element map, set of variables, byte order and precision.",
    [("writer", FIELD, "writenek"), ("reader", FIELD, "readnek"), ("header", FIELD, "Header")])
T["C02"] = (
    "A written field file has the layout Nek5000 expects, byte for byte",
    "A written field file consists of the 132-character header, the endian test number 6.54321, the element map, then coordinates, velocity, pressure, temperature and scalars, each variable stored element by element in map order, and, for three-dimensional data, the minimum and maximum of every component of every element in single precision. "
    "All numbers have the byte order and word size recorded for the data, and nothing else is in the file.",
    ["inputs", "configurations"],
    "No test looks at the bytes of a written file; a reader that shares an error with the writer hides it.",
    [("writer", FIELD, "writenek"), ("header", FIELD, "Header.as_bytestring")])
T["C03"] = (
    "Every conformant field file is decoded exactly",
    "Reading any conformant Nek5000 field file, of either byte order and word size, with any order of elements in its map and also when the file holds only part of the elements, puts every stored number at the element, component and grid point the format says. "
    "Time, step, variables, sizes, word size, byte order and element map are those of the file; an unknown endian tag is refused with an exception.",
    ["inputs", "configurations"],
    "The data files of the tests come from a few simulations with one layout; the values, maps and part files of other simulations are not sampled.",
    [("reader", FIELD, "readnek"), ("header", FIELD, "read_header")])
T["C04"] = (
    "Skipping variables changes nothing but the variables skipped",
    "Reading a field file with a list of variables to skip gives the same data as reading the whole file, except that the skipped variables are left at zero. "
    "This holds for every subset of coordinates, velocity components, pressure, temperature and scalars, under either naming of the velocity and coordinates, and for files with any element map.",
    ["inputs", "configurations"],
    "Skipping moves the file position; each subset of variables takes other offsets and the tests try two.",
    [("skipping", FIELD, "readnek.skip_elements, skip_condition")])
T["C05"] = (
    "A field-file header describes the file, and printing and parsing agree",
    "Parsing a printed header gives back the word size, order, element counts, time, step, file number, file count and variables it was made from, for every number that fits its column, and the printed form is exactly 132 characters. "
    "The textual variable code and the numbers of components determine each other, and a header that has neither is refused.",
    ["inputs", "configurations"],
    "The columns have fixed widths; whether each number stays in its column depends on its value, and tests try a few.",
    [("header", FIELD, "Header"), ("parser", FIELD, "read_header")])
T["C06"] = (
    "A mesh written as .re2 and read back is the same mesh",
    "Writing a mesh as .re2 and reading it back preserves the dimension, element count, number of condition fields, vertices, curved sides with type and parameters, and boundary conditions with type, partner and parameters, for 2D and 3D meshes in either byte order. "
    "Numbers survive exactly as far as the double precision of the format allows.",
    ["inputs", "configurations"],
    "Tests read and write two fixed meshes; combinations of conditions, curvature and fields are not sampled.",
    [("writer", MESH, "writere2"), ("reader", MESH, "readre2")])
T["C07"] = (
    "The bytes of .re2 files follow the format, when written and when read",
    "A written .re2 file has the 80-character header, the endian tag, the vertices of each element in the order of the format, then the curved sides, then for each field its boundary conditions, with the record counts and record layout the format prescribes and in the byte order of the data. "
    "Reading any conformant file, of either byte order and with its records in any order, recovers exactly what its records say, and a file with an unknown tag is refused.",
    ["inputs", "configurations"],
    "Round trips hide errors that writer and reader share, and no test contains a file of the other byte order or with records in another order.",
    [("writer", MESH, "writere2"), ("reader", MESH, "readre2")])
T["C08"] = (
    "A mesh written as .rea and read back is the same mesh to printed precision",
    "Writing a mesh as .rea text and reading it back preserves dimension, element count, condition fields, vertices, curved sides and boundary conditions, numbers being equal to the digits the columns can hold. "
    "This holds for 2D and 3D, for every condition type, for meshes without conditions, and across the element counts at which the columns of the format change width.",
    ["inputs", "configurations"],
    "The column layout changes with the element count and the text of a number with its value; tests use two meshes.",
    [("writer", MESH, "writerea"), ("reader", MESH, "readrea")])
T["C09"] = (
    "Writing a file leaves the data in memory unchanged",
    "Writing a field, a .re2 mesh, a .rea mesh or a VTK file leaves every number, name, condition, curvature, map entry and setting of the data in memory as it was, for every word size, byte order and precision. "
    "Writing the same data twice therefore gives the same file twice.",
    ["inputs", "histories"],
    "Tests write data and drop it; whether it is still the same afterwards, and for which settings, is not looked at.",
    [("field writer", FIELD, "writenek"), ("re2 writer", MESH, "writere2"), ("rea writer", MESH, "writerea"), ("VTK writer", VTK, "writevtk")])
T["C10"] = (
    "A .ma2 map file is read exactly",
    "Reading a .ma2 file of either byte order returns its header counts, the processor of every element and the global vertex numbers of every element exactly as stored. "
    "A file with an unknown endian tag is refused.",
    ["inputs", "configurations"],
    "One map file is tried; every 32-bit value and either byte order has to survive.",
    [("reader", MAP, "readma2")])
T["C11"] = (
    "Reading a SIMSON field gives the physical field its amplitudes describe",
    "Reading a SIMSON .dns file gives, at every grid point, the value of the Fourier series that the stored amplitudes define, on the grid of the header's box lengths, with velocities and scalars in their places. "
    "Header quantities such as time, sizes and flow type are recovered for either byte order.",
    ["inputs", "configurations"],
    "The sample file of the test is one simulation; the transform has to be right for each mode, plane and scalar.",
    [("reader", SIM, "readdns")])
T["C12"] = (
    "Reading a SIMSON plane file gives the stored arrays exactly",
    "Reading a plane file of one, two or three dimensions, in either byte order, returns the stored coordinates, sizes and values bit for bit in Fortran order.",
    ["inputs", "configurations"],
    "No test covers more than one file; dimension, byte order and shape select different code.",
    [("reader", SIM, "readplane")])
T["C13"] = (
    "A path is taken for a Nek field file exactly when its name has that form",
    "A path counts as a Nek field file if and only if its name ends in .f or .fld followed by digits in the form Nek5000 gives, whatever precedes the extension, and the xarray plugin and the dataset opener agree on it. "
    "Opening any other path as a dataset is refused.",
    ["inputs"],
    "The test tries a list of names; the recogniser has to be right for every string.",
    [("pattern", DS, "nek_ext_pattern, can_open_nek_dataset")])
T["C14"] = (
    "A dataset holds each value at its own coordinates",
    "Opening a field file of a cartesian box mesh as a dataset gives, for every element and grid point, each variable's value at the coordinates of that point on axes in ascending order, whatever the order of the elements in the file, and other meshes are refused. "
    "Variables have the documented names, the time coordinate is the file's time, and dropped variables are absent while the others are unchanged. "
    "xarray's plugin gives the same dataset, and several files opened together follow one another along time in the order given, each with its own time and values.",
    ["inputs", "configurations"],
    "Tests check the size of a few datasets; that each value sits at its own coordinates, for each arrangement of the elements, is not checked.",
    [("store", DS, "_NekDataStore"), ("assembly", DS, "_open_nek_dataset"), ("several files", DS, "open_mfdataset"), ("plugin", DS, "PymechXarrayBackend")])
T["C15"] = (
    "A VTK grid shows each value at its own point and joins the right points",
    "Converting a 2D or 3D field with coordinates to a VTK grid gives one point per grid point of every element, carrying that point's coordinates, velocity, pressure, temperature and scalars, and cells that join the four or eight neighbouring points of one element in the order VTK requires. "
    "Downsampling keeps the corner points of each element with their values.",
    ["inputs", "configurations"],
    "Without the optional VTK package the tests skip it, and with it they only count points.",
    [("converter", VTK, "hexa2vtk")])
T["C16"] = (
    "The limits of the data are its exact minima and maxima",
    "The limits reported for coordinates, velocity, pressure, temperature and scalars are the exact minimum and maximum of each component over all grid points of all elements, for any number of elements.",
    ["inputs"],
    "A test compares the limits of one file; the extremum may sit at any point of any element.",
    [("limits", CORE, "DataLims")])
T["C17"] = (
    "Centroid, face centres, shortest edge and points are geometrically right",
    "The centroid of an element is the mean of its vertices, the centre of each of its faces is the mean of that face's vertices, and its smallest edge is the length of the shortest of its edges, in 2D and 3D and for any order of the grid. "
    "The list of points of a mesh has every grid point of every element, in order.",
    ["inputs"],
    "These quantities decide which faces are glued; tests use them on axis-aligned boxes only.",
    [("element geometry", CORE, "Elem.centroid, Elem.face_center, Elem.smallest_edge"), ("points", CORE, "HexaData.get_points")])
T["C18"] = (
    "The connectivity check accepts exactly the consistently connected meshes",
    "The connectivity check accepts a mesh if, and only if, every internal or periodic condition of every field names an existing face of an existing element, that face points back with the same type, and the two faces of an internal condition coincide within the tolerance relative to the shortest edge of the two elements; otherwise it raises an error. "
    "It never changes the mesh.",
    ["inputs", "configurations"],
    "Tests give it good meshes; what it must reject is a space of broken meshes.",
    [("check", CORE, "HexaData.check_connectivity")])
T["C19"] = (
    "The condition check accepts exactly the meshes with no face left blank",
    "The boundary condition check accepts a mesh if, and only if, every face of every element has a condition in every field, and otherwise raises an error. It does not change the mesh.",
    ["inputs"],
    "One missing face anywhere has to be found; tests have none missing.",
    [("check", CORE, "HexaData.check_bcs_present")])
T["C20"] = (
    "Merging two meshes keeps both and joins exactly the faces that touch",
    "After merging, the mesh has the elements of both with geometry, curvature, element map and internal or periodic connections of each kept consistent under the new numbering, and the returned count is the number of pairs joined. "
    "Exactly the faces of the two meshes that coincide within the tolerance are connected to each other in every field, subject to the options for ignoring conditions, and the other mesh is left as it was.",
    ["inputs", "configurations"],
    "Tests merge two adjacent boxes once; which faces touch depends on the geometry and the tolerance.",
    [("merge", CORE, "HexaData.merge"), ("renumbering", CORE, "HexaData.offset_connectivity")])
T["C21"] = (
    "Generating and deleting internal conditions touches internal faces only",
    "Generating internal conditions connects exactly those pairs of faces of different elements that coincide within the tolerance, and have no condition in any field, symmetrically and in every field, and leaves other conditions as they are. "
    "Deleting internal conditions blanks exactly the internal ones, returns how many there were, and generating them again restores the same connectivity.",
    ["inputs", "configurations"],
    "Tests use one mesh; which faces coincide depends on the geometry.",
    [("generation", TOOLS, "generate_internal_bcs"), ("deletion", TOOLS, "delete_internal_bcs")])
T["C22"] = (
    "Keeping some elements gives exactly that sub-mesh, consistently renumbered",
    "Keeping a set of elements of a mesh leaves exactly those elements, in the order of the mesh, with unchanged geometry, curvature and other conditions, and connections between kept elements are renumbered to match. "
    "Faces whose partner was left out get the requested condition, the counts match, the element map is a permutation of the kept elements, and the list of elements given is unchanged. A number given more than once counts once, and a number that is not an element of the mesh, negative ones included, is refused.",
    ["inputs", "configurations"],
    "The choice of elements and the connections between them are a large space; no test covers it directly.",
    [("selection", TOOLS, "keep_elements")])
T["C23"] = (
    "Extruding a 2D mesh stacks it exactly over the given heights",
    "The extruded mesh has one copy of the 2D mesh per layer with the 2D vertices at the heights of the layer, each side face carrying the 2D condition of its edge with partners in the same layer, consecutive layers connected to each other, and the two ends carrying the requested conditions or a periodic connection. "
    "Curved edges keep their curvature on both ends of each layer, the element map is a permutation of all elements, options for internal conditions are followed, nothing but geometry is left of the variables, and the 2D mesh is unchanged.",
    ["inputs", "configurations"],
    "Tests extrude one mesh and check counts; geometry, curvature and connections of each layer depend on the input.",
    [("extrusion", TOOLS, "extrude")])
T["C24"] = (
    "Extruding with refinement gives a conforming mesh that fills the volume",
    "Extruding a 2D mesh with refinement splits gives right-handed elements that fill exactly the extruded volume, with the full number of layers on the fine side and half of it past each splitting curve, and with each internal face matched point for point by its partner. Curved edges of the 2D mesh stay on their curves, whole or in halves, touching faces have the same edges, and the line that splits an element bulges as the mean of the two edges it lies between. "
    "Conditions on the sides and ends are carried over, without splits the result is that of a plain extrusion, and unsuitable layer counts, end conditions or parameters are refused.",
    ["inputs", "configurations"],
    "The transition patterns are long tables of positions; a test runs one case and checks its connectivity.",
    [("refinement", TOOLS, "extrude_refine"), ("transition", TOOLS, "extrude_mid")])
T["C25"] = (
    "A generated box covers its rectangle with connected, right-handed elements",
    "A generated box has the requested number of equal elements covering exactly the given rectangle, right-handed and consistently connected in every field. "
    "Outer faces carry the condition requested for their side, opposite periodic sides are connected to each other, and the options for internal conditions are followed.",
    ["inputs", "configurations"],
    "A test builds one box; sizes, positions and conditions vary.",
    [("generator", TOOLS, "gen_box")])
T["C26"] = (
    "A generated circle fills the disc, with arcs of the circle as outer edges",
    "A generated circle has the requested square in the middle and rings around it, made of right-handed elements that are consistently connected and fill the disc. "
    "Exactly the outer edges are curved, as arcs of the circle with the requested radius whose ends lie on it, and carry the requested condition in each field. "
    "With the default spacing the first ring is as thick, at the middle of the sides of the square, as the elements of the square, if that leaves room.",
    ["inputs", "configurations"],
    "A test builds one circle and checks its connectivity; radius, square size, counts and spacing vary.",
    [("generator", TOOLS, "gen_circle")])
T["C27"] = (
    "Mapping a 2D mesh moves every vertex and curved edge by the transformation",
    "Every point of the mapped mesh is the image of the original point, and every edge that the options select for curvature gets the image of the original edge's midpoint, already curved edges always among them, while other edges stay straight. "
    "Conditions and connectivity are those of the original mesh, the count of curved sides is right, and the original mesh is unchanged.",
    ["inputs", "configurations"],
    "A test maps one mesh and checks its connectivity; the image points depend on transformation, curvature and options.",
    [("mapping", TOOLS, "map2D"), ("edge midpoints", TOOLS, "edge_mid")])
T["C28"] = (
    "Rotating a 2D mesh is a rigid rotation about the given point",
    "Rotating moves every grid point, curvature midpoint and centre of a sphere by the given angle about the given centre, and nothing else. "
    "Distances are therefore preserved, rotating back restores the mesh, and circle radii, conditions, connectivity and other data are unchanged.",
    ["inputs"],
    "The only test use is a rotation about the origin by a right angle.",
    [("rotation", TOOLS, "rotate_2d")])
T["C29"] = (
    "The text of .rea files follows the format, when written and when read",
    "Reading any .rea file of the format, whatever the number of its parameters, passive scalar lines and switches and in whatever order its curved sides come, recovers its sizes, vertices, curved sides and the conditions of every field, connections to element 0 counting as none. "
    "A written .rea file has its counts, vertices, curved sides and conditions in the lines, columns and sections the format prescribes.",
    ["inputs", "configurations"],
    "Round trips hide errors that writer and reader share; the files of the tests have one header and one order of records.",
    [("writer", MESH, "writerea"), ("reader", MESH, "readrea")])
T["C30"] = (
    "Mesh bookkeeping stays consistent through any sequence of operations",
    "After any sequence of generating, merging, extruding, mapping, rotating, keeping elements and adding or deleting internal conditions, the element count equals the number of elements, the element map is a permutation of them, the count of curved sides is the number of curved sides, the arrays of every element have the shapes that the mesh's variables and points per direction imply, every condition names its own element and face, and connections point to existing faces that point back. "
    "Every mesh so made can be written as .re2 and read back unchanged but for the internal connections, which the format leaves out.",
    ["histories"],
    "Each operation is tested alone at best; the order in which they are combined is a space of histories.",
    [("counts", CORE, "HexaData.update_ncurv"), ("merge", CORE, "HexaData.merge"), ("operations", TOOLS, "extrude, keep_elements, map2D, rotate_2d")])
T["C31"] = (
    "Operations that return a new mesh leave their inputs untouched",
    "Extruding, refining, mapping, merging another mesh in, checking and computing geometry leave the meshes and lists they are given exactly as they were, and generating a box or a circle leaves its lists so. Later changes to a returned mesh never show in the mesh or list it was made from, nor in another mesh.",
    ["inputs", "histories"],
    "Sharing of arrays between meshes only shows when one of them is changed later; tests drop the originals.",
    [("copying", TOOLS, "extrude, extrude_refine, map2D, gen_box, gen_circle"), ("merge", CORE, "HexaData.merge")])
T["C32"] = (
    "The computed ratio of a geometric spacing meets the requested total length",
    "The ratio computed for a geometric progression of two or more elements with a given first length gives, summed over the elements, the requested total length to a millionth, for every total that is at least the first length.",
    ["inputs"],
    "The result is that of an iteration from a guess; tests use one request.",
    [("iteration", TOOLS, "exponential_refinement_parameter")])
T["C33"] = (
    "Midpoints of edges lie on the edge, and circle arcs and midpoints agree",
    "The midpoint of a straight edge is the mean of its ends, that of a midpoint-curved edge is the stored point, that of a spherical edge lies on the sphere in the middle direction, and that of a circular edge lies on the circle of the given radius through the two ends, at equal distance from both and on the side the sign of the radius says. "
    "Converting a midpoint to a circle radius and back is the identity, and computing either changes nothing.",
    ["inputs"],
    "No test covers these functions directly; ends, radius and side are continuous.",
    [("midpoint", TOOLS, "edge_mid"), ("circle", TOOLS, "edge_circle")])
T["C34"] = (
    "A truncated binary file is never read as if it were whole",
    "Reading a field, .re2, .ma2 or SIMSON file of which any amount is missing before the end of its data raises an exception or returns nothing; it never yields data with made-up values in place of the missing ones.",
    ["crash_points", "inputs"],
    "A simulation may be killed at any byte of its output; the tests have whole files only.",
    [("field reader", FIELD, "readnek"), ("re2 reader", MESH, "readre2"), ("map reader", MAP, "readma2"), ("SIMSON readers", SIM, "readdns, readplane")])
T["C35"] = (
    "What one file format holds survives being carried to another",
    "A mesh read from one of .rea, .re2 and field files and written as another keeps its sizes, vertices, curved sides and outer conditions as far as both formats hold them, to the digits of the formats, through any chain of them. "
    "A field of two points per direction serves as a mesh, a SIMSON field written as a Nek field keeps every value, and rewriting a field in the other word size or byte order keeps what the smaller word holds.",
    ["inputs", "configurations", "histories"],
    "Each reader prepares data for each writer; tests read and write one format at a time.",
    [("mesh files", MESH, "readrea, writerea, readre2, writere2"), ("field files", FIELD, "readnek, writenek"), ("SIMSON files", SIM, "readdns")])
T["C36"] = (
    "A request that is refused changes nothing: no mesh, no list, no file",
    "When writing, merging, keeping elements, connecting elements, extruding or checking refuses its arguments, the meshes and lists it was given are as they were before the call, and a file that was there is neither changed nor removed, nor is one made that was not there. "
    "This holds wherever among otherwise good arguments the wrong one stands.",
    ["inputs", "fault_sequences"],
    "A refusal is tested for its exception, not for what was done before it was noticed.",
    [("writers", FIELD, "writenek"), ("mesh writer", MESH, "writere2"), ("merging and checks", CORE, "HexaData.merge, check_connectivity, check_bcs_present"), ("operations", TOOLS, "keep_elements, generate_internal_bcs, extrude, extrude_mid, extrude_refine")])
T["C37"] = (
    "A call depends on its arguments and files as they are now, not on earlier calls",
    "Reading a file gives what the file holds at that time, also when another one of that name, or of another shape, was read before; writing over a file leaves nothing of the old one. "
    "What an operation returned is not changed by later calls nor by changes to other results, and calling it again with the same arguments gives the same result.",
    ["histories", "inputs"],
    "Each test makes its call once in a fresh state, so a cache, a reused buffer or a changed default is not seen.",
    [("readers and writers", FIELD, "readnek, writenek"), ("mesh files", MESH, "readre2, writere2, readrea, writerea"), ("maps", MAP, "readma2"), ("SIMSON readers", SIM, "readdns, readplane"), ("data sets", DS, "open_dataset"), ("operations", TOOLS, "gen_box, gen_circle, extrude, extrude_refine, map2D, rotate_2d, keep_elements, generate_internal_bcs"), ("data", CORE, "HexaData, DataLims")])

NOT_APPLICABLE = {
}

LEVEL_NOTE = (
    "Every path of the real source within the stated bounds is executed symbolically and its assertions are decided by z3 for all inputs of the path; "
    "counterexamples, and one model of each path, are replayed on the unmodified code, and only a replayed failure is reported. Trusted: the numpy/IO model of vsym (validated by those replays) and z3. {b}"
)


def main():
    props, checks, na = [], [], []
    for pid in sorted(T):
        title, st, over, why, mech = T[pid]
        assert len(title) <= 80, (pid, len(title))
        reg = registry.PROPS.get(pid)
        assert st.count(". ") <= 2, pid
        props.append({
            "id": pid, "title": title, "statement": st,
            "quantifier": {"over": over, "text": (reg or {}).get("bounds") or "every admissible request"},
            "why_tests_cant": why,
            "anchors": {"files": sorted({m[1] for m in mech}), "mechanism": [{"name": n, "where": f"{f}: {w}"} for n, f, w in mech],
                        "observe_at": (reg or {}).get("functions", []), "hook_needed": None},
        })
        if reg and pid not in NOT_APPLICABLE:
            checks.append({
                "property": pid, "quick_cmd": f"./check.py {pid} --tier quick", "thorough_cmd": f"./check.py {pid} --tier thorough",
                "technique": reg.get("technique", "symbolic execution of the real source, assertions decided by z3"),
                "level": "model_checking", "level_note": LEVEL_NOTE.format(b=f"Bounds: {reg['bounds']}. Outside: {reg['outside']}."),
            })
        else:
            na.append({"property": pid, "reason": NOT_APPLICABLE.get(pid, "no check has been built for it yet")})
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fp:
        for p in props:
            fp.write(json.dumps(p) + "\n")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fp:
        json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
                   "notes": "No hooks are needed: the checks load the source of /repo into a symbolic environment and replay on the unmodified package."}, fp, indent=1)
        fp.write("\n")
    design(props)
    print(len(props), "properties,", len(checks), "checks,", len(na), "not applicable")


def design(props):
    """DESIGN.md from its template"""
    import glob
    import re

    from how import HOW

    out = []
    for p in props:
        pid = p["id"]
        reg = registry.PROPS[pid]
        out.append(f"### {pid}: {T[pid][0]}\n")
        out.append(HOW[pid] + "\n")
        out.append(f"- *Functions*: {', '.join('`%s`' % f for f in reg['functions'])}.")
        out.append(f"- *Bounds*: {reg['bounds']}.")
        out.append(f"- *Outside*: {reg['outside']}.")
        extra = reg["assumptions"][len(registry.COMMON):]
        if extra:
            out.append(f"- *Assumed*: {'; '.join(extra)}.")
        out.append(f"- *Beyond tests*: {T[pid][3]}\n")
    fixed = {}
    for line in open(os.path.join(HERE, "known_findings.txt")):
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
        if m:
            fixed.setdefault((m.group(2), m.group(3)), []).append(m.group(1))
    fix = ["| commit | properties | what failed |", "|---|---|---|"]
    fix += [f"| {c} | {', '.join(ps)} | {w} |" for (c, w), ps in fixed.items()]
    seeds = ["| bug | property | needs | breaks |", "|---|---|---|---|"]
    for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json")), key=lambda f: (json.load(open(f))["property"], f)):
        m = json.load(open(f))
        seeds.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
    text = open(os.path.join(HERE, "tools", "design.md.in")).read()
    for k, v in (("PROPERTIES", out), ("FIXED", fix), ("SEEDED", seeds)):
        text = text.replace(f"@@{k}@@", "\n".join(v).rstrip())
    with open(os.path.join(HERE, "DESIGN.md"), "w") as fp:
        fp.write(text)


main()
