"""Source of properties.jsonl (written by mkmanifest.py)."""
import json
S = "src/GTMesh/"
M = S + "UnstructuredMesh/"
OUT = []
def P(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, id
    assert statement.count(". ") <= 2, id
    OUT.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why,
                "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}})

def write(path="/verif/properties.jsonl"):
    with open(path, "w") as f:
        for p in OUT: f.write(json.dumps(p) + "\n")

P("N01", "Vector arithmetic is exact componentwise linear algebra",
  "For vectors of every dimension and element type, addition, subtraction, scaling, division by a scalar, their compound-assignment forms, comparison, scalar product, norm and cross product give the componentwise results of linear algebra in the vector's element type, leave their operands unchanged, and compound assignment returns the assigned vector. Construction or assignment from a list takes the leading elements and fills missing ones with zero.",
  "inputs", "all coordinates and scalars of the element type, all supported dimensions",
  "The existing tests evaluate a handful of fixed vectors; the laws must hold for every coordinate value, dimension and element type.",
  [S+"NumericStaticArray/Vertex.h", S+"NumericStaticArray/Vector.h", S+"NumericStaticArray/InlineArrayOperations.h"],
  [("Vertex operators", S+"NumericStaticArray/Vertex.h"), ("unrolled array operations", S+"NumericStaticArray/InlineArrayOperations.h")])
P("N02", "Gram-Schmidt orthogonalises and preserves span and volume",
  "For any linearly independent vectors the Gram-Schmidt process returns as many mutually orthogonal vectors, each equal to the original minus its projection onto the previous ones. The normalising form returns unit vectors and positive norms whose product is the volume spanned by the input.",
  "inputs", "all linearly independent vector systems, array and vector forms, with and without normalisation",
  "Tests exercise it only indirectly on a few fixed geometries; orthogonality and volume must hold for every linearly independent input.",
  [S+"NumericStaticArray/GramSchmidt.h"], [("gramSchmidt overloads", S+"NumericStaticArray/GramSchmidt.h")])
P("E01", "Element indices, boundary marks and the invalid index never collide",
  "For every index type, marking a plain index as boundary and extracting it again returns the same index, marked and plain indices are always distinct, distinct plain indices get distinct marks, and only the largest value counts as the invalid index.",
  "inputs", "all indices of all unsigned index widths",
  "Tests use a few small indices of one width; the encoding must be injective over the whole index range.",
  [M+"UnstructuredMeshDefine.h", M+"MeshElements/ElementIndex.hpp"], [("index macros and predicates", M+"UnstructuredMeshDefine.h")])
P("E02", "A face always knows its two cells and the next face of each",
  "After any sequence of operations, an element between two cells reports exactly the cells and next boundary elements last set, a new cell takes the first free side (left before right) and is refused when none is free or the index is invalid. Asking for the opposite cell or the next element of a connected cell answers for that cell, and asking for any other cell is refused with an exception and changes nothing.",
  "histories inputs", "all operation sequences (bounded length) over all index values",
  "Tests build fixed meshes once; the state machine must be right for every order of set, connect and swap operations with any indices, equal or not.",
  [M+"MeshElements/CellConnection.h", M+"MeshElements/CellBoundaryConnection.h"],
  [("CellConnection", M+"MeshElements/CellConnection.h"), ("setNextBElem / getNextBElem", M+"MeshElements/CellBoundaryConnection.h")])
P("E03", "Subelement lists keep order and refuse overflow",
  "A subelement list holds exactly the added and not yet removed indices in order of addition, in indexing, in iteration and in its reported size. A list with reserved capacity refuses, with an exception and without changing, any addition beyond the capacity and any removal past its end.",
  "histories inputs", "all sequences (bounded length) of additions and removals, with and without reserved capacity",
  "Tests never remove and never reach the capacity limit.",
  [M+"MeshElements/MeshElement.h"], [("SubelementContainer", M+"MeshElements/MeshElement.h")])
P("E04", "Mesh storage and boundary cells are complete and consistent",
  "A mesh returns its elements exactly as stored, by kind, by dimension and by element index, through constant and mutable access, and clearing leaves no element of any kind. Setting up boundary cells gives every face side without a cell exactly one new boundary cell, numbered face by face, that refers back to its face and is centred on it, keeps all existing cells, and adds nothing when repeated.",
  "inputs configurations", "all assignments of cells to face sides, mesh dimensions 2 to 4, with and without reserved subelements",
  "Tests check one or two fixed meshes; the bookkeeping must hold for every pattern of missing cells.",
  [M+"MeshElements/MeshElements.h", M+"MeshElements/MeshElement.h", M+"MeshElements/ComputationalySignificantElement.h"],
  [("setupBoundaryCells", M+"MeshElements/MeshElements.h"), ("clear", M+"MeshElements/MeshElements.h")])
P("D01", "Data containers hold one addressable value per mesh element",
  "A data container allocated for a mesh, or like another container, holds exactly one value per element of each mapped dimension, zero or the given initial value, and every way of addressing an element's value (by element, index, position or dimension, constant or not) reaches the same value. Elements outside the container are refused by checked access, and copies are equal and independent.",
  "inputs configurations", "all mesh sizes and values, mapped dimensions in any order, one or several value types",
  "Tests allocate a few fixed containers; sizes, order of dimensions and value types vary freely in use.",
  [M+"MeshDataContainer/MeshDataContainer.h"], [("MeshDataContainer", M+"MeshDataContainer/MeshDataContainer.h")])
P("C01", "Connections and neighborhoods are exactly the incidence relation",
  "For any mesh and any pair of dimensions, the connections of an element are exactly the elements incident with it, each listed once, ascending or in the order in which the mesh traversal meets them. The neighborhood of an element is exactly the set of other elements that share a connecting element with it, and applying a function visits each (start, target) incidence in traversal order.",
  "inputs configurations", "all topologies of small meshes (edges' vertices, faces' edges, faces' cells, first boundary element of each cell), all dimension pairs",
  "Tests compare fixed lists on two or three meshes; incidence must be right for every topology, including shared, repeated and boundary elements.",
  [M+"MeshFunctions/MeshApply.h", M+"MeshFunctions/MeshConnections.h", M+"MeshFunctions/MeshNeighborhood.h"],
  [("MeshApply", M+"MeshFunctions/MeshApply.h"), ("connections", M+"MeshFunctions/MeshConnections.h"), ("neighbors", M+"MeshFunctions/MeshNeighborhood.h")])
P("C02", "Mesh colouring is proper for every mesh and every random choice",
  "Colouring a mesh gives every element a colour such that no two elements sharing a connecting element have the same colour, for any number of colours needed and for every outcome of the random numbers. Greedy colouring is repeatable and never uses a colour above the number of previously coloured neighbors, and random colouring never needs more colours than the greedy one.",
  "inputs configurations", "all topologies of small meshes, all random draws, cliques below, at and beyond multiples of the initial colour reserve",
  "Tests check properness on fixed meshes with at most a few colours and one seed.",
  [M+"MeshFunctions/MeshColoring.h"], [("MeshColoring", M+"MeshFunctions/MeshColoring.h")])
FN = M+"MeshFunctions/"
P("G01", "Centers are the documented averages and the centroids of planar faces",
  "For every position of the vertices, the center of an edge is its midpoint and by default the center of every other element is the mean of the centers of its boundary elements; the tessellated method gives the exact centroid of each planar convex face. Initialising centers stores exactly the computed or given ones in faces and cells and changes no vertex.",
  "inputs configurations", "all vertex coordinates of 2D, 3D and 4D meshes; for centroids all affine images of polyhedra with triangular, quadrilateral and trapezoidal faces",
  "Tests compare printed centers of a few fixed shapes.", [FN+"ComputeCenters.h", M+"UnstructuredMesh.h"],
  [("computeCenters", FN+"ComputeCenters.h"), ("initializeCenters", M+"UnstructuredMesh.h")])
P("G02", "Measures are lengths, areas and volumes",
  "Whatever the position, orientation and shape of the elements, with centers computed by the same method the measure of an edge is its length, of a planar convex face or a convex 2D cell its area and of a convex cell its volume, with either computation method and in any order of edges and faces. No measure is negative.",
  "inputs configurations", "all affine images of convex meshes in 2D and 3D, 4D simplices, both methods, all edge directions",
  "Tests measure a few axis-aligned shapes; the formulas use square roots, divisions and signs that only show for oblique or mirrored positions.",
  [FN+"ComputeMeasures.h", FN+"GetCenters.h", S+"NumericStaticArray/GramSchmidt.h"], [("computeMeasures", FN+"ComputeMeasures.h")])
P("G03", "Face normals are unit, orthogonal and consistently directed",
  "The normal of every face is a unit vector orthogonal to the face. In 3D it points from the left to the right cell, also when one of them is missing or a boundary cell, in 2D it points to the right of the edge's direction, and in higher dimensions towards the left cell.",
  "inputs configurations", "all affine images of convex meshes in 2D and 3D, 4D simplices, both methods, either side of each face present, missing or a boundary cell",
  "Tests print normals of one or two fixed meshes; direction must be right for each combination of missing sides and each position in space.",
  [FN+"ComputeNormals.h", FN+"GetCenters.h"], [("computeFaceNormals", FN+"ComputeNormals.h")])
P("G04", "Cell distances and center differences follow the two sides of each face",
  "For every face the computed distance is the distance between the centers of its two cells, and the center difference is the vector from the left to the right center. Where a side has no cell the face center stands in for it, or the boundary cell's center once boundary cells are set up, and a face without any cell has distance zero.",
  "inputs configurations", "all centers, all assignments of cells, missing cells and boundary cells to both sides, dimensions 2 to 4",
  "Tests use a mesh or two with a single pattern of boundary faces.",
  [FN+"CellsDistance.h", FN+"ComputeCellsCenterDifference.h"], [("computeCellsDistance", FN+"CellsDistance.h"), ("computeCellsCenterDifference", FN+"ComputeCellsCenterDifference.h")])
P("G05", "Edge orientation tells the turning direction of each edge",
  "An edge is reported left of a 2D cell exactly when it runs counterclockwise around the cell's center, and left of a 3D face exactly when it runs counterclockwise around the face's normal. The orientation table has one flag per edge of each face, in the order of the face's edges, equal to the answer for the single edge.",
  "inputs configurations", "all affine images of convex meshes, all edge directions, starting edges and sides of faces",
  "Tests check one mesh in one position.", [FN+"EdgesOrientation.h"], [("edgeIsLeft, edgesOrientation", FN+"EdgesOrientation.h")])
IO = M+"MeshIO/"
P("I01", "A mesh written to VTK is read back as the same mesh",
  "Every written VTK file has correct headers, counts and type codes, lists for each cell its vertices in the order its VTK type prescribes with the base face turned inwards whatever the sides and edge directions, and reading it gives a mesh with the same vertices, edges, faces, cells, adjacency and types, each shared face once. A file that is not an ASCII unstructured grid or has an unsupported cell type is refused, and a mesh object loaded over keeps nothing of its previous content.",
  "inputs configurations", "all affine images of tetrahedral, hexahedral, wedge and pyramid meshes and of polygons, all vertex coordinates in a file, all ways two tetrahedra share corners",
  "Tests write and read two fixed meshes; vertex order depends on every cell's sides, edge directions and position in space.",
  [IO+"MeshWriter/VTKMeshWriter.h", IO+"MeshReader/VTKMeshReader.h"], [("indexFace, indexPyramid, indexLinearObject, indexCell", IO+"MeshWriter/VTKMeshWriter.h"), ("loadFromStream, loadCells", IO+"MeshReader/VTKMeshReader.h")])
P("I02", "A reused writer never writes stale mesh data",
  "A writer object used again writes exactly what a new writer would: after any change of vertices, topology, numbering, edge directions, sides or cell types the second file describes the changed mesh. This holds for the VTK writers in 2D and 3D and for the FPMA writer.",
  "histories inputs", "write, change (7 kinds, with symbolic coordinates), write again",
  "Tests write each mesh once per writer; the writers cache their index and skip re-indexing on an unchanged signature.",
  [IO+"MeshWriter/VTKMeshWriter.h", IO+"MeshWriter/FPMAMeshWriter.h", IO+"MeshWriter/MeshWriter.h", M+"MeshElements/MeshElements.h"], [("lastHash / computeHash", IO+"MeshWriter/MeshWriter.h"), ("updateSignature", M+"MeshElements/MeshElements.h")])
P("I03", "A mesh written to FPMA is read back as the same mesh",
  "An FPMA file lists all vertices, each face as the cycle of its vertices and each cell by its faces in the order the mesh stores them, and reading it gives a mesh with the same vertices, edges, faces and cells in which every cell is a polyhedron and faces and cells keep their numbers and order. A mesh object loaded over keeps nothing of its previous content.",
  "inputs configurations", "all vertex coordinates of meshes of tetrahedra, prisms, pyramids and hexahedra, all sides, edge directions and starting edges tried",
  "Tests only read one fixed FPMA file and never write one.",
  [IO+"MeshWriter/FPMAMeshWriter.h", IO+"MeshReader/FPMAMeshReader.h"], [("indexFace", IO+"MeshWriter/FPMAMeshWriter.h"), ("loadFaces, loadCells", IO+"MeshReader/FPMAMeshReader.h")])
P("I04", "Cells without a VTK type are split into the right tetrahedra",
  "A cell of any other type is written as one tetrahedron for each edge of each of its faces, made of the edge's ends, the face center and the cell center. Each face center is one point shared by both cells of the face, each cell center one point of its own even where centers coincide, and every written tetrahedron is mapped back to its cell.",
  "inputs configurations", "all three polyhedral meshes at any position, distinct and coinciding centers, all sides and edge directions tried",
  "Tests count the tetrahedra of one mesh; the points are keyed and shared, which goes wrong only for particular centers.",
  [IO+"MeshWriter/VTKMeshWriter.h"], [("indexMesh", IO+"MeshWriter/VTKMeshWriter.h")])
P("I05", "Cell data reach every written cell and are read back",
  "Writing data attaches to each written cell, also to each tetrahedron of a split cell, the scalars, vectors and tensors of its mesh cell under the names of the traits, in one CELL_DATA section stating the number of written cells. Reading restores every attribute by name, whatever the order and number of containers and whether the traits are default, input/output, getter/setter or bound ones; attributes of points and attributes the file does not have leave the cell data as they are.",
  "inputs configurations", "all values, all combinations of split and plain cells, single and several containers, 2D and 3D",
  "Tests write one container of fixed values; the mapping from written to mesh cells depends on which cells are split.",
  [M+"MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h", M+"MeshDataContainer/MeshDataIO/VTKMeshDataReader.h"], [("writeColumn", M+"MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h"), ("indexData, readColumn", M+"MeshDataContainer/MeshDataIO/VTKMeshDataReader.h")])
P("I06", "Mesh files are dispatched by extension with the requested types",
  "Loading and writing by file name uses the format of the last extension only, returns a reader or writer of that format, and replaces a writer object of another format. Loading a missing file is refused, another extension loads and writes nothing, and cells written without types are polytopes while given types or those of a reader are kept.",
  "inputs configurations", "all tried file names with several dots, all overloads, fresh and reused writers, symbolic coordinates",
  "Tests use one well-formed name and no writer of another format.",
  [M+"UnstructuredMesh.h"], [("load, write, checkExtension", M+"UnstructuredMesh.h")])
B = S + "BinarySerializer/"
P("S01", "A serialized value is read back unchanged",
  "A number, enumeration, text, sequence, set, map, pair, tuple or nesting of them written by the binary serializer and read into an object of any previous content equals the value written, bit by bit for numbers. Writing leaves the value unchanged, equal values give equal bytes, and a reading takes exactly the bytes of its value.",
  "inputs", "all contents of all supported standard containers, sizes bounded, fresh and filled targets, raw data and object interface",
  "Tests write a few fixed values and read them into empty objects.",
  [B+"BinarySerializer.h", B+"Serializers/SerializeSimple.h", B+"Serializers/SerializeIterable.h", B+"Serializers/SerializeIndexable.h", B+"Serializers/SerializeCompactContainer.h", B+"Serializers/SerializeTuple.h", S+"Traits/Interfaces/InterfaceCompactContainer.h"],
  [("addNext, readNext and serializer selection", B+"BinarySerializer.h"), ("serializers of kinds of types", B+"Serializers")])
P("S02", "A serializer is a queue of its values that starts over at its end",
  "After any history of writing, reading, clearing, resetting, copying, saving and loading, the serializer holds the values in order of writing and each reading gives the next one, beginning again after the last. A copy is independent, saving and loading reproduces the data from their beginning, and a missing file is refused without change.",
  "histories inputs", "all histories of 4 (thorough: 5) operations on two serializers and a file, with values of four kinds",
  "Tests write everything before reading; interleavings, copies and reloading need histories of several operations.",
  [B+"BinarySerializer.h"], [("position of reading, clear, saveToFile, loadFromFile", B+"BinarySerializer.h")])
P("S03", "Serialization of objects follows their traits, bound traits and functions",
  "Of an object exactly the attributes of its traits are transferred, in the order of the traits, with arithmetic traits preferred, and the rest of the target stays unchanged. Traits bound to an object replace the default ones also for nested objects and objects in containers, pairs and tuples, and functions of the user come before any traits.",
  "inputs configurations", "all values of attributes, several combinations of default, arithmetic, I/O, template, bound primary and secondary traits, container sizes 0 to 2",
  "Tests bind one trait to a flat object; nesting and precedence need combinations and symbolic contents show that nothing else is touched.",
  [B+"BinarySerializer.h", B+"Serializers/SerializeTraitedClass.h", B+"Serializers/SerializeCustom.h", S+"Traits/Traits.h", S+"Traits/TraitsBind/TraitsBind.h"],
  [("SerializeTraitedClass", B+"Serializers/SerializeTraitedClass.h"), ("SelectTraits", S+"Traits/TraitsBind/TraitsBind.h")])
TA = S + "Traits/"
P("T01", "Traits read and write exactly the named attribute",
  "Traits report their attributes in order with their names and types, and reading or writing an attribute reaches exactly the member or calls exactly the getter and setter it was declared with, through references, pointers and constant objects, leaving the rest of the object unchanged. Applying a function to traits calls it once for each attribute in order, input/output and arithmetic traits default to the default traits, and nested attributes are reached by their indices.",
  "inputs configurations", "all values of attributes declared by members, getters, setters, functions, lambdas and bound functions, up to 20 attributes",
  "Tests use a few attributes with one value each; a wrong index or member shows only for particular declarations and values.",
  [TA+"Traits.h", TA+"MemberAccess/MemberAccess.h", TA+"MemberAccess/GetSetAccess.h", TA+"FunctionTraits.h", S+"Macros/MacroForEach.h"],
  [("Traits, Apply, get", TA+"Traits.h"), ("GetAccess, SetAccess", TA+"MemberAccess/GetSetAccess.h"), ("MemberAccess", TA+"MemberAccess/MemberAccess.h")])
P("T02", "Arithmetic on objects with traits acts on each attribute alone",
  "Operators and functions of objects with arithmetic traits give the object whose every attribute, nested ones included, is the operator or function applied to the attributes of the operands, whatever the value category of the operands, and change only the operand assigned to. Maximum, minimum and sum are those of all numbers held by the object or container.",
  "inputs", "all values of attributes, all value categories of operands, several classes with nested and restricted traits",
  "Tests compute a few expressions; overloads for temporaries and mixed attribute types are separate code and values matter for each.",
  [TA+"TraitsAlgorithm/TraitsAlgorithm.h"], [("operators and expression processors", TA+"TraitsAlgorithm/TraitsAlgorithm.h")])
DB = S + "Debug/"
P("L01", "An exported value reads back from its text",
  "Exporting a number, truth value, text, container, pair, tuple, or object with traits to any stream or to the standard output gives one text of that value: text in quotation marks with its quotation marks and backslashes escaped, elements in order in brackets, keys with their values, attributes in order under the names of their traits. A type's own printing function comes before its traits, bound traits replace default ones also inside, and the formatting of the stream is left as it was.",
  "inputs configurations", "all values of all printable kinds and their nestings within bounded sizes, each destination (stream, string stream, file, standard output)",
  "Tests export a few values to one kind of stream; printers are separate code for each destination and kind, and escaping depends on the characters.",
  [DB+"VariableExport.h", DB+"Printers/PrintExportable.h", DB+"Printers/PrintText.h", DB+"Printers/PrintIterable.h", DB+"Printers/PrintIndexable.h", DB+"Printers/PrintTuple.h", DB+"Printers/PrintTraitedClass.h", DB+"Printers/PrintCustom.h", DB+"Printers/PrintAny.h", S+"Utils/ClassSelector.h"],
  [("selection of a printer", DB+"VariableExport.h"), ("printers", DB+"Printers")])
P("L02", "Logs are complete and well formed whatever is logged",
  "After any sequence of calls, JSON and HTML logs that were destroyed or replaced are complete documents with one record per logged variable in order, stating file, line, expression and value, whatever characters the names contain; variables of one call share a group number that no other call has. Console messages state file, line, function, name and value of each variable in order as configured, and each debugging macro evaluates its arguments once.",
  "inputs histories", "all characters in names, files and texts, all histories of 3 operations, all console settings",
  "Tests write one log of fixed values; finishing, replacing and special characters depend on the history and the content.",
  [DB+"JSONLogger.h", DB+"HTMLLogger.h", DB+"ConsoleLogger.h", DB+"Debug.h", S+"Macros/MacroForEach.h", S+"Singleton/Singleton.h"],
  [("JSONLogger", DB+"JSONLogger.h"), ("HtmlLogger", DB+"HTMLLogger.h"), ("ConsoleLogger", DB+"ConsoleLogger.h"), ("debugging macros", DB+"Debug.h")])
