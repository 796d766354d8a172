"""Which harnesses decide which property, with their bounds."""
COMMON_ASSUMPTIONS = [
    "bounded: every claim is for the inputs described under 'bounds', explored to the end of every path (no loop is cut)",
    "the compiler front end (clang 18 -O1), the IR interpreter engine/symex.cpp and Z3 are trusted; counterexamples and sampled witness paths are replayed against a g++ build with the real standard library",
    "harnesses marked 'exact reals' treat double as mathematical reals (no rounding, no overflow, NaN only from invalid operations); the others use IEEE-754 and machine integers",
    "memory allocation never fails; iostreams, files, printf and the out-of-line parts of libstdc++ are the models in /verif/model, where a number with a symbolic value is formatted losslessly",
]
def H(name, file, defs=None, real=False, reach=("end",), bounds="", **kw):
    return dict(name=name, file=file, defs=defs or {}, real=real, reach=list(reach), bounds=bounds, **kw)
def R(*a, **k): return H(*a, real=True, **k)
T = dict(thorough_only=True)

PROPS = {}
def P(pid, harnesses, assumptions=()): PROPS[pid] = dict(harnesses=harnesses, assumptions=list(assumptions))

P("N01", [
    R("real", "n01_vertex.cpp", reach=("end", "mixed", "cross", "lists"), bounds="dimensions 1-4, double, every coordinate and factor in [-8,8] (integer factors -3..3)"),
    R("float", "n01_vertex.cpp", {"FLOAT": 1}, reach=("end", "mixed"), args=["--float-exact"], bounds="dimension 3, float, coordinates in [-8,8]"),
    H("int", "n01_int.cpp", bounds="int dimensions 1-3 with |x|<=30000, long dimensions 2-3 with |x|<=1.5e9, machine arithmetic"),
    H("intdiv", "n01_intdiv.cpp", bounds="int dimension 2, |x|<=100, divisor -4..4 without 0, five fractions; float times and over a double, every bit pattern but NaN"),
    H("ieee", "n01_ieee.cpp", bounds="dimensions 2 and 3, every double bit pattern"),
])
P("N02", [R("nv%d_d%d_v%d" % (n, d, v) + ("" if s is None else "_s%x" % s), "n02_gs.cpp", dict(NV=n, DIM=d, VARIANT=v, **({} if s is None else {"SPARSE": s})), time=200,
            bounds="%d vectors in dimension %d, %s; components in [-3,3], linearly independent" % (n, d, "all components symbolic" if s is None else "symbolic components by bit mask 0x%x, the others fixed" % s), **k)
    for n, d, v, s, k in [(1, 3, 2, None, {}), (1, 3, 3, None, {})] + [(2, d, v, None, {}) for d in (2, 3, 4) for v in range(4)] + [(3, 3, v, None, {}) for v in range(4)] + [(3, 4, 0, None, {}), (3, 4, 1, None, {}), (3, 4, 2, 0x0f0, T), (3, 4, 3, 0x0f0, T)] + [(4, 4, v, 0xf000, {}) for v in range(4)]])

P("E01", [H("index", "e01_index.cpp", bounds="all pairs of indices of 8, 16, 32 and 64 bits")])
P("E02", [
    H("history64", "e02_conn.cpp", reach=("end", "known", "unknown"), thorough={"defs": {"STEPS": 3}}, time=240, bounds="3 ways of construction, then every sequence of 2 (thorough: 3) operations over arbitrary 64-bit indices, then both queries for an arbitrary cell"),
    H("history32", "e02_conn.cpp", {"IDX": "uint32_t", "SXI": "sx_u32"}, reach=("end", "known", "unknown"), bounds="as history64 with 32-bit indices and 2 operations"),
])
P("E03", [H("history", "e03_sub.cpp", reach=("end", "full", "removed"), quick={"defs": {"STEPS": 4}}, thorough={"defs": {"STEPS": 5}}, time=300, bounds="reserve 0, 2 and 3; every sequence of 4 (thorough: 5) additions and removals; arbitrary 64-bit indices"),
    H("long", "e03_sub.cpp", {"LONG": 1}, reach=("end", "long"), bounds="140, 290 and 300 subelements, with and without reserve, two removals near the start, middle or end, one addition; every third index symbolic")])
P("E04", [R("mesh", "e04_mesh.cpp", reach=("end", "boundary"), thorough={"defs": {"FACES": 5}}, time=300, bounds="3 (thorough: 5) faces with arbitrary left and right cells; dimensions 2, 3, 4; Real double and float; with and without reserve")])
P("D01", [R("container", "d01_mdc.cpp", quick={"defs": {"MAXN": 3}}, thorough={"defs": {"MAXN": 6}}, bounds="0..3 (thorough: 0..6) vertices, faces and cells, 0..2 edges; values arbitrary; 3D and 2D meshes")])
def big(what, dim, n): return H("grid%d_%d" % (what, dim), "c03_big.cpp", {"WHAT": what, "DIM": dim, "SYMEDGE": 7, "NEND": 2, "NX": n[0], "NY": n[1], "NZ": n[2]}, thorough={"defs": {"NX": n[0] + 1, "NY": n[1] + 1, "NEND": 5}, "opts": {"time": 7000}}, time=400,
    bounds="%s (thorough: one more per axis); one edge ending in 3 (thorough: 6) different vertices, two assignments of sides, directions and orders, a cell walked from two of its faces, all pairs or triples of dimensions" % ("%dx%dx%d grid of hexahedra and wedges" % n if dim == 3 else "%dx%d grid of quadrilaterals" % n[:2]))
FOUR = {0: ("connections, original order and traversal, pairs with the cells", "conn"), 1: ("connections, original order and traversal, other pairs", "conn"), 2: ("neighborhoods of seven triples of dimensions", "neigh"), 3: ("greedy colouring of six pairs of dimensions", "color")}
def fourd(w): return H("four%d" % w, "c04_four.cpp", {"WHAT": w, "NC": 2}, reach=("end", FOUR[w][1]), thorough={"defs": {"WHAT": w, "NC": 2}, "opts": {"time": 3000}}, time=300, bounds="two 4D simplices sharing a tetrahedron, one of: any end of an edge, any edge of a triangle, any triangle of a tetrahedron, any first boundary element of a cell; " + FOUR[w][0])
C01 = {0: "2 triangles, symbolic ends of 2 edges", 1: "2 triangles, cells of 3 (thorough: 5) edges symbolic", 2: "2 triangles", 3: "2 tetrahedra, symbolic ends of an edge", 4: "2 tetrahedra, 2 symbolic edges of a face", 5: "2 tetrahedra, cells of 3 (thorough: 4) faces symbolic", 6: "as 4 with reserved subelements", 7: "2 triangles, equal dimensions"}
C01R = {0: "conn orig", 1: "conn orig neigh apply", 2: "neigh", 3: "conn orig neigh apply", 4: "conn orig neigh apply", 5: "conn orig neigh apply", 6: "conn orig neigh apply", 7: "conn"}
P("C01", [H("case%d" % c, "c01_conn.cpp", {"CASE": c}, reach=["end"] + C01R[c].split(), thorough={"defs": {"DEEP": 1}, "opts": {"time": 7000}}, bounds=b) for c, b in C01.items()] + [big(0, 3, (2, 3, 2)), big(0, 2, (4, 4, 0)), big(1, 3, (2, 2, 2)), big(1, 2, (4, 4, 0)), fourd(0), fourd(1), fourd(2)])
P("C02", [
    H("flat", "c02_color.cpp", {"CASE": 0}, reach=("end", "greedy"), thorough={"defs": {"DEEP": 1}, "opts": {"time": 3000}}, bounds="2 triangles, symbolic ends of edges, 4 dimension pairs"),
    H("random", "c02_color.cpp", {"CASE": 1}, reach=("end", "random"), native_model=True, thorough={"defs": {"DEEP": 1}, "opts": {"time": 3000}}, bounds="6 vertices, 5 edges, one (thorough: two) symbolic ends, every outcome of the random numbers; free function and mesh method"),
    H("solid", "c02_color.cpp", {"CASE": 2}, reach=("end", "greedy"), bounds="2 tetrahedra, 2 symbolic edges of a face, 5 dimension pairs"),
    H("big", "c02_color.cpp", {"CASE": 3}, reach=("end", "big"), native_model=True, thorough={"defs": {"DEEP": 1}}, bounds="stars and polygons with 1..65 and 260 (thorough: also 130 and 520) mutually adjacent elements, both methods and both directions"),
    big(2, 3, (2, 3, 2)), big(2, 2, (4, 4, 0)), fourd(3),
    H("empty", "c02_color.cpp", {"CASE": 4}, bounds="meshes without elements"),
])
SHAPES = {0: "a prism over a trapezoid", 1: "a triangular prism and a pyramid sharing a quadrilateral", 2: "two tetrahedra", 3: "a pentagonal prism and a pyramid on its pentagon"}
FRAME = "mapped by every triangular linear map (entries in [-8,8], diagonal not 0; every linear map up to rotation and reflection) and translated arbitrarily; axes order %d"
NINE = {"SHAPE": 4, "OFFS": 1, "MESH3": "UnstructuredMesh<3,uint32_t,double,12>"}
NINEB = "a prism over a nonagon (faces of nine edges, a cell of eleven faces), 32-bit indices, reserved subelements, stretched along the axes, sheared and translated arbitrarily"
def nine(f, c, m=None): return [R("nine" + ("" if m is None else "_" + m[:4]), f, {"CASE": c, **NINE, **({} if m is None else {"METHOD": "METHOD_" + m})}, time=400, bounds=NINEB + ("" if m is None else "; %s method" % m.lower()))]
def flat9(f): return [R("flat9", f, {"CASE": 0, "NINE": 1}, bounds="a nonagon with a triangle at its side under every invertible affine map with entries in [-4,4]")]
P("G01", [
    R("free3d", "g_centers.cpp", {"CASE": 0}, bounds="prism with pyramid, two tetrahedra, pentagonal prism with pyramid and nonagonal prism, every vertex coordinate in [-8,8]"),
    R("free2d", "g_centers.cpp", {"CASE": 1}, bounds="three polygons, every vertex coordinate in [-8,8]"),
    R("free9", "g_centers.cpp", {"CASE": 1, "NINE": 1}, bounds="a nonagon and a triangle, every vertex coordinate in [-8,8]"), R("centroid9", "g_centers.cpp", {"CASE": 2, "SHAPES": 4, "MESH3": NINE["MESH3"]}, bounds=NINEB),
    R("free4d", "g_centers.cpp", {"CASE": 3}, bounds="4D simplex, every vertex coordinate in [-8,8]"),
] + [R("centroid_p%d" % p, "g_centers.cpp", {"CASE": 2, "PERM": p}, bounds="all four polyhedral meshes " + FRAME % p, **({} if p in (0, 3) else T)) for p in range(6)])
M4 = [(0x8421, "0", 0), (0x8001, "i-j", 0), (0x2001, "i-j", 1), (0x0420, "i-j", 2)]
M4B = "4D simplex with arbitrary origin and triangular edge vectors, symbolic entries by bit mask 0x%04x (positive diagonal), axes rotated by %d"
def four(f, c): return [R("four_%04x" % m, f, {"CASE": c, "MASK": m, "OFF(i,j)": "(%s)" % o, "PERM": p}, bounds=M4B % (m, p)) for m, o, p in M4]
P("G02", [R("flat", "g_measures.cpp", {"CASE": 0}, bounds="three convex polygons under every invertible affine map with entries in [-4,4], both edge directions")]
  + [R("solid%d_%s_p%d" % (s, m[:4], p), "g_measures.cpp", {"CASE": 1, "SHAPE": s, "METHOD": "METHOD_" + m, "PERM": p}, time=400, bounds=SHAPES[s] + " " + FRAME % p + "; %s method, two edge directions and two orders" % m.lower(), **({} if p == 0 else T))
     for p in range(6) for s in range(4) for m in ("DEFAULT", "TESSELLATED")] + nine("g_measures.cpp", 1, "DEFAULT") + nine("g_measures.cpp", 1, "TESSELLATED") + flat9("g_measures.cpp") + four("g_measures.cpp", 3))
P("G03", [R("flat", "g_normals.cpp", {"CASE": 0}, bounds="three convex polygons under every invertible affine map with entries in [-4,4], both edge directions")]
  + [R("solid%d_%s_p%d" % (s, m[:4], p), "g_normals.cpp", {"CASE": 1, "SHAPE": s, "METHOD": "METHOD_" + m, "PERM": p}, time=400, bounds=SHAPES[s] + " " + FRAME % p + "; %s method, three assignments of sides, with and without boundary cells, two edge directions" % m.lower(), **({} if p == 0 else T))
     for p in range(6) for s in range(4) for m in ("DEFAULT", "TESSELLATED")] + nine("g_normals.cpp", 1, "DEFAULT") + nine("g_normals.cpp", 1, "TESSELLATED") + flat9("g_normals.cpp") + four("g_normals.cpp", 6))
P("G04", [R("dim%d" % (c), "g_normals.cpp", {"CASE": c}, reach=("end", "moved"), bounds="dimension %d, %d faces between 3 cells with arbitrary centers in [-8,8], every assignment of sides" % (c, n)) for c, n in ((2, 2), (3, 2), (4, 1))])
P("G05", [R("flat", "g_normals.cpp", {"CASE": 0}, bounds="three convex polygons under every invertible affine map with entries in [-4,4], both edge directions")]
  + [R("solid%d_p%d" % (s, p), "g_normals.cpp", {"CASE": 5, "SHAPE": s, "PERM": p}, time=400, bounds=SHAPES[s] + " " + FRAME % p + "; two assignments of sides, two edge directions and orders", **({} if p == 0 else T)) for p in range(6) for s in range(4)] + nine("g_normals.cpp", 5) + flat9("g_normals.cpp"))
CELLS = {0: "a hexahedron over a trapezoid", 1: "a wedge and a pyramid", 2: "two tetrahedra"}
P("I01", [R("solid%d_p%d" % (s, p), "i01_vtk.cpp", {"CASE": 0, "SHAPE": s, "PERM": p, **({"OFF": 1} if s == 0 else {})}, reach=("end", "reused"), thorough={"defs": {"OFF": 7}, "opts": {"time": 3000}}, time=500, bounds=CELLS[s] + " under triangular linear maps (axes order %d) and translations, four assignments of sides, edge directions and orders, with and without boundary cells" % p, **({} if p == 0 else T)) for s in range(3) for p in (0, 1, 3)]
  + [R("flat", "i01_vtk.cpp", {"CASE": 2, "SYM": "0x3f"}, reach=("end", "reused"), bounds="three polygons under every affine map, four assignments of sides and directions, polygon/quad/triangle types"),
     R("flat32", "i01_vtk.cpp", {"CASE": 2, "SYM": "0x3f", "IDX": "uint32_t"}, reach=("end", "reused"), bounds="as flat with 32-bit indices"),
     R("solid32", "i01_vtk.cpp", {"CASE": 0, "SHAPE": 2, "IDX": "uint32_t", "OFF": 0}, reach=("end", "reused"), bounds="two tetrahedra under diagonal maps with 32-bit indices"),
     R("big", "i01_vtk.cpp", {"CASE": 5, "NX": 6, "NY": 6, "NZ": 5, "WEDGES": 1}, time=500, bounds="6x6x5 grid of hexahedra and wedges (270 cells, 294 vertices), arbitrary stretch of the first axis and translation, two assignments of sides, directions and orders"),
     R("bigflat", "i01_vtk.cpp", {"CASE": 6, "NX": 16, "NY": 17}, time=500, bounds="16x17 grid of quadrilaterals, arbitrary stretch and translation, two assignments of sides and directions"),
     R("many", "i01_vtk.cpp", {"CASE": 7}, reach=("end", "solid", "flat"), time=500, bounds="files of 1300 vertices with 46 tetrahedra or 40 polygons whose vertex and edge numbers are easily confused"),
     R("verymany", "i01_vtk.cpp", {"CASE": 7, "MANY": 66100}, reach=("end", "solid", "flat"), time=500, bounds="files of 66100 vertices with 49 tetrahedra or 43 polygons whose numbers are easily confused"),
     R("refused", "i01_vtk.cpp", {"CASE": 3}, bounds="ten faulty kinds of files, symbolic coordinates"),
     R("shared", "i01_vtk.cpp", {"CASE": 4}, reach=("end", "shared", "apart"), bounds="two tetrahedra sharing 0 to 3 corners in every order, every coordinate in [-8,8]")])
P("I02", [R("solid%d" % s, "i01_vtk.cpp", {"CASE": 1, "SHAPE": s, "OFF": 1}, reach=("end", "split"), thorough={"defs": {"OFF": 7}, "opts": {"time": 6000}}, time=500, bounds=CELLS[s] + ", split or not: written, changed in one of 13 ways, written again, and the first state a third time; sheared diagonal maps (thorough: triangular linear maps) and translations") for s in range(3)]
  + [R("sums", "i01_vtk.cpp", {"CASE": 8}, time=500, bounds="VTK and FPMA writers: a face of a 3x3x2 grid (104 edges) begun at each other edge, with edges numbered so that polynomial checksums in seven bases stay the same; arbitrary translation"),
     R("flat", "i01_vtk.cpp", {"CASE": 2, "SYM": "0x3f"}, reach=("end", "reused"), bounds="three polygons, four kinds of change"), R("fpma", "i02_io.cpp", {"CASE": 0}, reach=("end", "reused"), bounds="FPMA: seven kinds of change, every vertex coordinate in [-8,8]")])
P("I03", [R("fpma", "i02_io.cpp", {"CASE": 0}, reach=("end", "reused"), bounds="three polyhedral meshes, every vertex coordinate in [-8,8], four assignments of sides, directions and orders"),
    R("verymany", "i02_io.cpp", {"CASE": 9, "MANY": 66100}, time=500, bounds="a file of 66100 vertices with 49 tetrahedra whose vertex numbers are easily confused"),
    R("big", "i02_io.cpp", {"CASE": 8, "NX": 6, "NY": 6, "NZ": 5, "WEDGES": 1}, time=500, bounds="6x6x5 grid of hexahedra and wedges, arbitrary stretch and translation, two assignments of sides, directions and orders")])
P("I04", [R("split", "i02_io.cpp", {"CASE": 1}, bounds="three polyhedral meshes translated arbitrarily, distinct and coinciding centers, four assignments of sides, directions and orders")])
P("I05", [R("solid", "i02_io.cpp", {"CASE": 2}, reach=("end", "simple", "several", "access", "bound", "single"), bounds="every value in [-8,8] (integers up to 10^6), every subset of split cells in three meshes, five ways of passing data"),
          R("flat", "i02_io.cpp", {"CASE": 3}, bounds="three polygons, every value and coordinate in [-8,8]"),
          R("others", "i02_io.cpp", {"CASE": 10}, time=400, bounds="files of other programs: five titles, POINT_DATA before, after or missing, three attributes present or missing, attributes of unknown names, symbolic values in [-8,8]"),
          R("row", "i02_io.cpp", {"CASE": 6, "NX": 4, "NY": 1, "NZ": 1, "WEDGES": 0, "NSYM": 4}, time=400, bounds="4 hexahedra, every subset split, a record of 7 attributes (19 numbers), symbolic values in [-8,8]"),
          R("grid", "i02_io.cpp", {"CASE": 6, "NX": 3, "NY": 3, "NZ": 2, "WEDGES": 1, "NSYM": 2}, time=400, bounds="26 cells, two split or not and the others in a fixed pattern, a record of 7 attributes, symbolic values in [-8,8]"),
          R("gridflat", "i02_io.cpp", {"CASE": 7, "NX": 8, "NY": 7}, time=400, bounds="56 quadrilaterals, a record of 6 attributes, symbolic values in [-8,8]")])
P("I06", [R("solid", "i02_io.cpp", {"CASE": 4}, reach=("end", "known", "other"), bounds="sixteen file names, all overloads, then a second file with the same writer; translated mesh"), R("flat", "i02_io.cpp", {"CASE": 5}, bounds="two file names and the overloads in 2D; translated mesh")])
S01C = {0: "all values of 18 number and enumeration types", 1: "vectors, texts, lists, deques, arrays, valarrays and nestings of them, symbolic contents", 2: "sets, maps and multimaps with symbolic keys", 3: "multisets, unordered maps and sets with symbolic keys", 4: "pairs, tuples and nested associative containers", 5: "eleven kinds of containers with 63, 70, 130 and 256 elements, three of them symbolic, into 0, 10 and 300 elements", 6: "containers of the user with size and subscript, of constant size and in the manner of TNL, and nestings", 7: "texts and lists of 65535 and 66000 elements, three of them symbolic, through memory and a file"}
P("S01", [H("case%d" % c, "s01_serial.cpp", {"CASE": c}, time=400, thorough={"defs": {"MAXN": 4}, "opts": {"time": 3000}}, bounds=b + "; sizes 0..2 (thorough: 0..3) of value and 0..2 of previous content") for c, b in S01C.items()])
P("S02", [H("history", "s02_history.cpp", reach=("end", "around", "copied", "loaded"), time=500, thorough={"defs": {"STEPS": 5}, "opts": {"time": 3000}}, bounds="every history of 4 (thorough: 5) of 9 operations on two serializers and a file; values of 4 kinds with symbolic contents"),
    H("prepared", "s02_history.cpp", {"PREPARED": 1, "STEPS": 3}, reach=("end", "around", "copied", "loaded", "prepared"), time=500, thorough={"defs": {"STEPS": 4}, "opts": {"time": 3000}}, bounds="every history of 3 (thorough: 4) of 9 operations beginning with 1 to 3 values of which some were read, with or without a file")])
P("S03", [H("default", "s03_traits.cpp", {"CASE": 0}, bounds="ten kinds of traits, container sizes 0..2, all attributes symbolic"), H("bound", "s03_traits.cpp", {"CASE": 1}, bounds="nine bindings of up to three traits, container sizes 0..2, all attributes symbolic")])
P("T02", [H("operators", "t02_alg.cpp", {"CASE": 0}, bounds="seven classes with traits; every double and float bit pattern, |int| <= 30000; all value categories of operands; numbers of every bit pattern (integer attributes: 8 numbers and 1..50)"),
          H("meshdata", "md_traits.cpp", {"CASE": 1}, bounds="absolute value, maximum, minimum of data containers with 0..2 values per dimension and lists of lists, empty ones included, every double but NaN"),
          H("functions", "t02_alg.cpp", {"CASE": 1}, bounds="five classes, numbers in [17,30], where the functions differ; transcendental functions uninterpreted"),
          R("extremes", "t02_alg.cpp", {"CASE": 2}, reach=("end", "long"), bounds="seven classes and lists of up to 3 elements, values in [-8,8]; lists of 300 and 66000 values, two of the last 12 symbolic")])
T01C = {0: "ten attributes declared by members, getters and setters, functions and references", 1: "attributes declared by lambdas, bound functions and mixtures", 2: "named, template, private, nested and 20 attributes"}
P("T01", [H("case%d" % c, "t01_traits.cpp", {"CASE": c}, bounds=b + "; all values symbolic (sums and multiples within 10^6)") for c, b in T01C.items()] + [H("meshdata", "md_traits.cpp", {"CASE": 0}, bounds="traits of a data container of four dimensions with 0..2 values each, names of dimensions of one to three digits")])
L01C = {0: "every value of the number types (floating ones: multiples of 1/4 up to 100), texts of up to 2 printable characters, all one-byte patterns", 1: "containers of 0..3 elements, nested; five kinds of containers of 5, 19, 40 and 300 elements, two of them symbolic; containers of the user with size and subscript, of constant size and in the manner of TNL", 2: "objects with default, bound, nested, I/O and getter traits and printing functions"}
P("L01", [H("case%d" % c, "l01_export.cpp", {"CASE": c}, time=400, thorough={"defs": {"MAXN": 4}, "opts": {"time": 3000}}, bounds=b + "; exported to a stream, a string stream, a file and the standard output") for c, b in L01C.items()] + [H("meshdata", "md_traits.cpp", {"CASE": 2}, reach=("end", "data", "bytes"), bounds="data containers of four dimensions with 0..2 values each, symbolic values; the bytes of an object without traits")])
P("L02", [H("json", "l02_logs.cpp", {"CASE": 0}, reach=("end", "several", "many", "created", "destroyed"), time=400, thorough={"defs": {"STEPS": 4}, "opts": {"time": 6000}}, bounds="histories of 3 (thorough: 4) operations, five kinds of file and variable names with symbolic characters, four kinds of values"),
          H("html", "l02_logs.cpp", {"CASE": 1}, reach=("end", "several", "many", "created", "destroyed"), time=400, thorough={"defs": {"STEPS": 4}, "opts": {"time": 6000}}, bounds="as json"),
          H("jsonmany", "l02_logs.cpp", {"CASE": 0, "MANY": 262, "STEPS": 1}, reach=("end", "many", "hundreds"), time=400, bounds="262 calls with one or two variables, then one with one or four; names of up to 560 characters, two kinds of names with symbolic characters"),
          H("htmlmany", "l02_logs.cpp", {"CASE": 1, "MANY": 262, "STEPS": 1}, reach=("end", "many", "hundreds"), time=400, bounds="as jsonmany"),
          H("console", "l02_logs.cpp", {"CASE": 2}, reach=("end", "macros"), bounds="16 settings and the default, three file names, 1 to 3 variables, symbolic values; all macros")])
