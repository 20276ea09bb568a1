"""Source of properties.jsonl and MANIFEST.json (tools/gen.py writes both)."""
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), claim=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, state=list(state), observe=list(observe), claim=claim, na=na))


I = "include/NeoFOAM/"
FV = I + "finiteVolume/cellCentred/"
SFV = "src/finiteVolume/cellCentred/"

prop("C01", "Dictionary behaves as a typed map from text keys to values",
     "After any sequence of insertions, overwrites, removals and assignments through references, a dictionary contains exactly the keys stored and not removed since, each with its last value, whatever the key texts are. Reading with exactly the stored type yields the value, reading with another type fails with a bad-cast error, and reading a missing key fails with an out-of-range error; no read or failed access changes the contents. Nested dictionaries are reached by reference, copies are independent, and construction from a list or map keeps every distinct key (the first of equal keys of a list counts).",
     ["inputs", "histories"], "all histories of insert/overwrite/remove/assign over two keys and four value types, any stored and requested key of up to 12 (18) arbitrary bytes, all values of 19 types, up to 300 (1100) keys, keys of up to 1024 bytes, three levels",
     "The tests run a handful of fixed keys and values in one order; they reach no removal followed by re-insertion, no overwrite by another type, no collisions or growth of the table.",
     [I + "core/dictionary.hpp", "src/core/dictionary.cpp", I + "core/demangle.hpp"],
     [("insert overwrites", "src/core/dictionary.cpp Dictionary::insert"), ("checked access", "src/core/dictionary.cpp Dictionary::operator[]"), ("typed access", I + "core/dictionary.hpp Dictionary::get")],
     [("data_", "the stored entries", I + "core/dictionary.hpp")], ["return values and exceptions of Dictionary's public members"],
     claim=("symbolic execution of LLVM IR with Z3 (histories as symbolic choices, keys and values symbolic)",
            "Every history and input within the stated bounds is decided on the code compiled from /repo; counterexamples are replayed on the native build. Trusted: the executor, the modelled parts of libstdc++ (lib/runtime.cpp, shim/std)."))

prop("C02", "Token lists keep order, position and types; inputs read what they hold",
     "A token list is the sequence of the values inserted into it in order: indexed access returns an element exactly if the index is in range and the type is the stored one (out-of-range or bad-cast errors otherwise), removal and taking the first element shift the rest. Sequential reading returns each element once in order from the reading position, a failed sequential read does not move the position, and reading past the end is an out-of-range error; a copy takes over contents and position and is independent. An input is read through the alternative it holds and is not consumed by reading.",
     ["inputs", "histories"], "all histories of four (five) operations from insert, remove, sequential read, take first, write through a reference, copy/assign; 19 element types, texts of up to 8 (16) arbitrary bytes, all values; any starting position of 64 bits; up to 300 elements",
     "The tests read one list of fixed tokens once; positions after failures, interleaving of reads with removals and copies in mid-reading are histories they do not reach.",
     [I + "core/tokenList.hpp", "src/core/tokenList.cpp", I + "core/input.hpp"],
     [("indexed access", I + "core/tokenList.hpp TokenList::get"), ("sequential access", I + "core/tokenList.hpp TokenList::next"), ("dispatch on the alternative", I + "core/input.hpp read")],
     [("data_", "the tokens", I + "core/tokenList.hpp"), ("nextIndex_", "position of sequential reading", I + "core/tokenList.hpp")],
     ["return values and exceptions of TokenList's public members and of read()"],
     claim=("symbolic execution of LLVM IR with Z3 (histories as symbolic choices, values symbolic)",
            "Every history and input within the stated bounds is decided on the code compiled from /repo; counterexamples are replayed natively."))

prop("C03", "Documents have unique identities and are always validated",
     "A document always has an identity: one given in its contents is kept, otherwise it receives one that no other document created in the process received, also when documents are created concurrently. Construction from contents succeeds exactly when the validator accepts the finished contents (identity included) and otherwise fails with a runtime error; later validation judges the current contents with the same validator, and copies keep validator, identity and contents. The name of a document is its entry of that name, by reference.",
     ["inputs", "histories", "schedules"], "all histories of four (six) creations, all validators of a threshold shape, identities of up to 8 (14) arbitrary bytes, up to 264 entries and 1200 documents, every interleaving of two threads creating two documents (thorough: three threads)",
     "The tests create a few documents on one thread and use validators on fixed contents.",
     [I + "core/database/document.hpp", "src/core/database/document.cpp"],
     [("identity creation", I + "core/database/document.hpp Document::generateID"), ("validation at construction", "src/core/database/document.cpp Document::Document"), ("validation", "src/core/database/document.cpp Document::validate")],
     [("counter", "number of identities handed out", I + "core/database/document.hpp generateID")], ["id(), validate(), name() and constructor exceptions"],
     claim=("symbolic execution of LLVM IR with Z3; exhaustive interleaving at atomic operations with conflicting-access detection",
            "Every history, input and interleaving within the stated bounds; races are confirmed by ThreadSanitizer on the native build, wrong schedules by replay."))

prop("C04", "Databases and collections keep each stored object and its true type",
     "A database contains exactly the collections inserted and not removed since; inserting under an existing name keeps the existing collection and returns it, references to a stored collection stay valid, and removal reports whether there was something to remove. Access to a missing collection or document is an out-of-range error, access as another type a bad-cast error. A collection finds exactly the documents matching a predicate, lists every identity once in sorted order, counts all documents and hands them out by reference; type-erased calls reach the stored object.",
     ["inputs", "histories"], "all histories of four (five) insertions and removals over two (three) names, three (four) documents with arbitrary values and arbitrary predicate threshold; names and identities of up to 8 (14) arbitrary bytes; up to 300 (1100) documents and 18 (40) collections",
     "The tests insert two collections and remove one; predicates are fixed, no name is reused.",
     [I + "core/database/database.hpp", "src/core/database/database.cpp", I + "core/database/collection.hpp", "src/core/database/collection.cpp"],
     [("insertion keeps existing entries", "src/core/database/database.cpp Database::insert"), ("typed access", I + "core/database/collection.hpp Collection::as"), ("search", I + "core/database/collection.hpp CollectionMixin::find")],
     [("collections_", "stored collections", I + "core/database/database.hpp"), ("docs_", "documents of a collection", I + "core/database/collection.hpp")],
     ["return values, references and exceptions of Database and Collection"],
     claim=("symbolic execution of LLVM IR with Z3 (histories as symbolic choices, values symbolic)",
            "Every history and input within the stated bounds is decided on the code compiled from /repo; counterexamples are replayed natively."))

prop("C05", "Run-time selection builds exactly the implementation of the given name",
     "Creating by a registered name builds one new object of exactly that implementation with the given arguments, and any other name ends the program with an error status instead of returning. Every implementation is listed exactly once per base class, with its own documentation and schema, and base classes do not see each other's implementations. Documentation of an unknown name is an out-of-range error, and no failed lookup or destroyed object changes what is registered.",
     ["inputs", "configurations"], "all names up to 9 (16) bytes, names of 300 bytes, arbitrary constructor arguments, up to 70 implementations per base class, three base classes",
     "The tests create registered names only; an unknown name terminates the process, which they cannot survive.",
     [I + "core/runtimeSelectionFactory.hpp"],
     [("lookup and creation", I + "core/runtimeSelectionFactory.hpp RuntimeSelectionFactory::create"), ("refusal", I + "core/runtimeSelectionFactory.hpp keyExistsOrError"), ("registration", I + "core/runtimeSelectionFactory.hpp Register::addSubType")],
     [("table", "creators by name", I + "core/runtimeSelectionFactory.hpp"), ("docTable", "documentation by base and name", I + "core/runtimeSelectionFactory.hpp")],
     ["objects returned by create(), process exit, entries(), doc(), schema()"],
     claim=("symbolic execution of LLVM IR with Z3 (names and arguments symbolic, process exit observed)",
            "Every name within the bounds is decided on the code compiled from /repo; exit paths are replayed natively."))

prop("C06", "Cached stencil data is stored once per key and read with its type",
     "The cache keeps, per key, the first value inserted until it is assigned through a reference, whatever the keys are; later insertions under the same key change nothing. It contains exactly the inserted keys; reading with the stored type yields the value, another type is a bad-cast error, a missing key an out-of-range error, and no read creates an entry.",
     ["inputs", "histories"], "all histories of three (five) operations over three (two) keys and two value types, keys of up to 12 (18) arbitrary bytes, values of 19 types, up to 300 (1100) keys",
     "No test exercises the cache directly; the mesh tests insert one key once.",
     [FV + "stencil/stencilDataBase.hpp", SFV + "stencil/stencilDataBase.cpp"],
     [("insert once", FV + "stencil/stencilDataBase.hpp StencilDataBase::insert"), ("typed access", FV + "stencil/stencilDataBase.hpp StencilDataBase::get")],
     [("stencilDB_", "cached values", FV + "stencil/stencilDataBase.hpp")], ["contains(), get(), operator[]"],
     claim=("symbolic execution of LLVM IR with Z3 (histories as symbolic choices, keys and values symbolic)",
            "Every history and input within the stated bounds is decided on the code compiled from /repo; counterexamples are replayed natively."))

TECH = "symbolic execution of LLVM IR with Z3"
NOTE = "Every input and history within the stated bounds is decided on the code compiled from /repo, doubles taken as real numbers; counterexamples are replayed natively. Trusted: the executor and the stand-in for Kokkos (shim/Kokkos_Core.hpp)."
CORE = I + "core/"
SC = "src/core/"

prop("C07", "Checked views never touch elements outside their bounds",
     "With bounds checking compiled in, an element access through a view yields exactly the element at that position when the index is below the size; any other index, however large, ends the program with an error before memory is touched, or, when the view is told not to abort, the first such index is recorded as the failure and kept (in-range accesses record nothing). Views made from another span or of a sub-range refer to exactly the elements of that range, in order. Without bounds checking, every index in range yields the element.",
     ["inputs", "histories"], "all views of 0..4 (6) elements, all 64-bit indices, all sub-ranges, three accesses in any order",
     "The tests use one in-range and one out-of-range index; a refused access ends the process.",
     [CORE + "view.hpp"],
     [("bounds check", CORE + "view.hpp View::operator[]"), ("sub-range", CORE + "view.hpp View::subview")],
     [("failureIndex", "the first refused index", CORE + "view.hpp")], ["element references, process end, failureIndex"],
     claim=(TECH + " (indices and contents symbolic; every memory access bounds-checked)", NOTE))

prop("C08", "Parallel primitives visit, reduce and scan every index exactly once",
     "On every executor, a parallel loop over a range or a field applies its kernel exactly once to every index of the range and to no other, empty ranges do nothing, and a field loop stores the kernel's value at each index. Reductions give the sum, maximum or minimum of exactly the range's elements regardless of how iterations are ordered or split into teams and of the previous value of the result variable, the same on every executor; scans give each index the total of the earlier ones and the overall total. Executors compare equal exactly if they are of the same kind.",
     ["inputs", "schedules", "configurations"], "every executor, every sub-range of three to five indices, arbitrary real values, every order of iterations, every split into two teams; ranges of 1100 and 66000 indices from any start up to 2^32",
     "The tests run one executor, one length and one value pattern and one schedule.",
     [CORE + "parallelAlgorithms.hpp", CORE + "executor/executor.hpp", CORE + "executor/serialExecutor.hpp", CORE + "executor/CPUExecutor.hpp", CORE + "executor/GPUExecutor.hpp"],
     [("loops", CORE + "parallelAlgorithms.hpp parallelFor"), ("reductions", CORE + "parallelAlgorithms.hpp parallelReduce"), ("scans", CORE + "parallelAlgorithms.hpp parallelScan")],
     [], ["values written by kernels, results of reductions and scans"],
     claim=(TECH + " (values symbolic, iteration orders and splits enumerated as choices)", NOTE))

prop("C09", "Fields own their storage and keep their values across copies and executors",
     "After any sequence of resizing, assignment, uniform fill, copying, moving and transfer between executors, a field has exactly the length and values that follow from it: resizing keeps the common elements, copies are independent, transfers keep values and change only the executor, a moved-from field releases nothing twice. Every block obtained from an executor is released exactly once on that executor, and no access leaves its block. Assignments across executors are refused.",
     ["inputs", "histories", "configurations"], "every history of two to four operations on fields of 0..3 elements on every executor, arbitrary values; scalars, vectors and labels; fields of up to 66000 elements",
     "The tests run fixed lengths and single operations; storage errors do not show in values.",
     [I + "fields/field.hpp"],
     [("resize", I + "fields/field.hpp Field::resize"), ("transfer", I + "fields/field.hpp Field::copyToExecutor"), ("assignment", I + "fields/field.hpp Field::operator=")],
     [("data_", "storage", I + "fields/field.hpp"), ("size_", "length", I + "fields/field.hpp")], ["size(), values, exec(), storage released"],
     claim=(TECH + " (histories as choices, values symbolic, allocations tracked)", NOTE))

prop("C10", "Field operations compute elementwise and touch only the given range",
     "Fill, map and set change exactly the elements of the given range and leave the others as they were; addition, subtraction, scaling, the elementwise products and maps give at every element what the operation gives on the single values, also when a field is combined with itself, and never read or write beyond the fields. Operands of different lengths are refused where two fields are combined. Fields compare equal exactly when lengths and all elements agree.",
     ["inputs", "schedules", "configurations"], "lengths 0..3 (4), every sub-range, every executor, arbitrary values, both iteration orders; up to 1100 elements",
     "The tests use uniform fields of one length, where wrong offsets and orders do not show.",
     [I + "fields/field.hpp", I + "fields/fieldFreeFunctions.hpp"],
     [("fill, set, map", I + "fields/fieldFreeFunctions.hpp"), ("comparison", I + "fields/fieldFreeFunctions.hpp equal")], [], ["values of the fields"],
     claim=(TECH + " (values symbolic)", NOTE))

prop("C11", "Segmented data maps segments to disjoint consecutive ranges",
     "Offsets computed from interval lengths start at zero, grow by exactly each length and end at the total, which is returned, for any number of segments including none and on any executor. The ranges of a segmented field are disjoint, consecutive and cover all values; the view of a segment shows exactly its elements, per-segment functions see each segment once with its own values, and construction keeps given values and offsets (refusing inconsistent ones).",
     ["inputs", "schedules", "configurations"], "0..4 (6) segments with any lengths up to a million for offsets; 1..3 (4) segments of 0..2 (3) values; up to 1100 segments and a segment of 512 values",
     "The tests use five equal segments.",
     [I + "fields/segmentedField.hpp"],
     [("offset computation", I + "fields/segmentedField.hpp segmentsFromIntervals"), ("segment view", I + "fields/segmentedField.hpp SegmentedFieldView")],
     [("segments_", "offsets", I + "fields/segmentedField.hpp")], ["offsets, ranges and values"],
     claim=(TECH + " (lengths and values symbolic)", NOTE))

prop("C12", "Boundary data of a patch is exactly the patch's range of the mesh data",
     "A mesh answers exactly the geometry, connectivity and counts it was built from. For every patch, also empty ones, each per-patch view of the boundary mesh shows exactly the faces of the patch's offset range, in order, and the ranges are consecutive and cover all boundary faces. Boundary values, reference values, gradients, fractions and types of a field have one entry per boundary face (type: per patch), the patch range is that of the offsets, patch start, end and size agree, and copies to an executor keep all values and report that executor.",
     ["inputs", "configurations"], "1..3 (4) patches over 0..3 (4) boundary faces with arbitrary geometry, every pair of executors; 300 patches over 70000 faces",
     "The tests use a one-cell mesh with one face per patch.",
     [I + "mesh/unstructured/boundaryMesh.hpp", "src/mesh/unstructured/boundaryMesh.cpp", I + "fields/boundaryFields.hpp", FV + "boundary/boundaryPatchMixin.hpp", I + "mesh/unstructured/unstructuredMesh.hpp"],
     [("patch views", "src/mesh/unstructured/boundaryMesh.cpp"), ("patch range", I + "fields/boundaryFields.hpp BoundaryFields::range")],
     [("offset_", "first face of each patch", I + "mesh/unstructured/boundaryMesh.hpp")], ["views and accessors of meshes and boundary data"],
     claim=(TECH + " (topology as choices, geometry symbolic)", NOTE))

prop("C33", "Assertions and error macros refuse exactly the violated conditions",
     "An assertion passes without effect exactly when its condition holds; otherwise the terminating forms end the program with an error status and the throwing forms raise the library's exception carrying the message, the file and line. Equality and length assertions compare the given values and report them; debug assertions are the same in debug builds and do nothing in release builds. The condition is evaluated once.",
     ["inputs"], "all integer pairs and all lengths up to five, all assertion forms, debug and release builds",
     "Terminating assertions end the test process; the tests check the throwing ones with two constants.",
     [CORE + "error.hpp"],
     [("terminating assertions", CORE + "error.hpp NF_ASSERT"), ("throwing assertions", CORE + "error.hpp NF_ASSERT_THROW")], [], ["process end, exceptions, evaluation of the operands"],
     claim=(TECH + " (operands symbolic; process end observed)", NOTE))

prop("C13", "Mesh factories build consistent meshes",
     "A one-dimensional uniform mesh of n cells divides the unit interval: every cell has volume 1/n and its centre in the middle, the internal face i lies between cells i and i+1, at distance (i+1)/n, owned by i, area vectors point from owner to neighbour and have the face area as length; the two boundary faces are at the two ends, belong to the first and last cell, point outward, and weights, distance vectors and coefficients follow from the geometry. The single cell mesh has closed outward areas and boundary data that agree with its only cell. Counts agree with the lengths of all lists; this holds for every n and on every executor.",
     ["inputs", "configurations", "schedules"], "every n up to 6 (16), 300 and 33000 (66000), every executor, both iteration orders",
     "The tests look at one size and few of the lists; faults at other sizes and in unread lists pass.",
     [I + "mesh/unstructured/unstructuredMesh.hpp", "src/mesh/unstructured/unstructuredMesh.cpp"],
     [("uniform mesh", "src/mesh/unstructured/unstructuredMesh.cpp create1DUniformMesh"), ("single cell mesh", "src/mesh/unstructured/unstructuredMesh.cpp createSingleCellMesh")],
     [], ["every list and count of the meshes"],
     claim=(TECH + " (the factories' kernels executed on every executor; the numbers compared exactly up to rounding)", NOTE))

prop("C14", "The cell-to-face stencil lists for every cell exactly its faces",
     "For any mesh, the cell-to-face stencil of a cell contains exactly the faces, internal and boundary, that connect to the cell, each once, and no other; the total is twice the internal plus once the boundary faces. This holds for every order in which parallel iterations run, including interleaved ones, and on every executor.",
     ["inputs", "schedules", "configurations"], "every connection of 0..3 (4) internal and 0..1 (2) boundary faces to 1..3 (4) cells, every order and interleaving of small ones",
     "The tests use a uniform mesh, where each cell has two faces, and one schedule.",
     [SFV + "stencil/cellToFaceStencil.cpp", FV + "stencil/cellToFaceStencil.hpp"],
     [("counting and filling", SFV + "stencil/cellToFaceStencil.cpp CellToFaceStencil::computeStencil")], [], ["the segmented field of face indices"],
     claim=(TECH + " (connections symbolic; iteration orders and interleavings as choices)", NOTE))

prop("C15", "Sparsity patterns address exactly the matrix entries of the mesh",
     "For any mesh, the sparsity pattern has one row per cell, and a row has exactly one entry for the cell itself plus one per internal face of the cell; the diagonal offset of a row and the owner and neighbour offsets of each face point at distinct entries in the right row whose column is the cell, the neighbour, and the owner respectively. Row offsets are consecutive and end at the number of entries. The pattern of a mesh is built once and shared. This holds for every order of parallel iterations and for cells with many faces.",
     ["inputs", "schedules", "configurations"], "every connection of 0..3 (4) internal faces to 1..3 (4) cells, every order and interleaving of small ones, cells of 40 (120, 254) faces",
     "The tests use a one-dimensional mesh with sorted faces, where at most two faces meet in a cell.",
     [SFV + "linearAlgebra/sparsityPattern.cpp", FV + "linearAlgebra/sparsityPattern.hpp"],
     [("offset construction", SFV + "linearAlgebra/sparsityPattern.cpp SparsityPattern::update")], [], ["row offsets, columns, diagonal, owner and neighbour offsets"],
     claim=(TECH + " (connections symbolic; iteration orders and interleavings as choices)", NOTE))

prop("C16", "Matrices and linear systems keep and find their entries",
     "Reading an entry of a sparse matrix by row and column returns exactly the stored entry, in whichever order the columns of a row are stored, and a position that is not stored is refused. Copies of matrices and linear systems, to the same or another executor, have the same entries, columns, rows and right-hand side, are independent, and report the executor asked for. Systems whose parts live on different executors or have different sizes are refused. The residual A x - b of a system and a vector is computed for each row from exactly its entries; conversion of value and index types keeps every entry.",
     ["inputs", "configurations"], "matrices of up to 2x3 with 0..3 entries per row in any order, arbitrary values, every position, every pair of executors; 66000 rows",
     "The tests read sorted rows of one matrix; absent positions end the process.",
     [I + "linearAlgebra/CSRMatrix.hpp", I + "linearAlgebra/linearSystem.hpp", I + "linearAlgebra/utilities.hpp"],
     [("entry lookup", I + "linearAlgebra/CSRMatrix.hpp CSRMatrixView::entry"), ("copies", I + "linearAlgebra/linearSystem.hpp LinearSystem"), ("residual", I + "linearAlgebra/linearSystem.hpp spmv")],
     [], ["entries, sizes, executors, products"],
     claim=(TECH + " (columns and values symbolic)", NOTE))

prop("C17", "Geometric face data follow from the mesh geometry",
     "For any mesh, the interpolation weight of an internal face is the neighbour's share of the normal distances from the face to the two cell centres (one half when both vanish), and a boundary face has weight one; the difference coefficient of an internal face is the inverse distance of the cell centres, of a boundary face that of cell centre and face. The non-orthogonal coefficients are the inverse of the distance along the face normal, limited from below by a twentieth of the distance. The data of a mesh are computed once and shared.",
     ["inputs", "configurations"], "any connection of up to two internal and one boundary face to up to three cells, arbitrary geometry (real numbers)",
     "The tests use a uniform mesh, in which weights are all one half.",
     [SFV + "stencil/basicGeometryScheme.cpp", SFV + "stencil/geometryScheme.cpp", FV + "stencil/basicGeometryScheme.hpp", FV + "stencil/geometryScheme.hpp"],
     [("weights", SFV + "stencil/basicGeometryScheme.cpp updateWeights"), ("difference coefficients", SFV + "stencil/basicGeometryScheme.cpp updateDeltaCoeffs")], [], ["surface fields of the geometry scheme"],
     claim=(TECH + " (geometry symbolic over the reals)", NOTE))

prop("C18", "Interpolation to faces uses exactly the values and weights of the own cells",
     "Linear interpolation gives for every internal face the owner's value times the face's weight plus the neighbour's value times the remainder, and for every boundary face the boundary value times the face's weight; with weights between zero and one the result is between the two cells' values. Upwind interpolation gives exactly the owner's value where the flux is not negative and the neighbour's otherwise, and boundary values on the boundary. The scheme is the one selected by name; an unknown name is refused. All of this for scalars and vectors, any mesh, every executor, and through every overload.",
     ["inputs", "configurations"], "every connection of up to three internal and two boundary faces to up to three cells, arbitrary weights, fluxes and values; a chain of 300 cells with 48 further internal and 300 boundary faces in 22 patches",
     "The tests interpolate a constant field on a uniform mesh.",
     [SFV + "interpolation/linear.cpp", SFV + "interpolation/upwind.cpp", FV + "interpolation/linear.hpp", FV + "interpolation/upwind.hpp", FV + "interpolation/surfaceInterpolation.hpp"],
     [("linear", SFV + "interpolation/linear.cpp computeLinearInterpolation"), ("upwind", SFV + "interpolation/upwind.cpp computeUpwindInterpolation")], [], ["face values, weights"],
     claim=(TECH + " (topology as choices; weights, fluxes and values symbolic over the reals)", NOTE))

prop("C19", "The explicit divergence is the conservative balance of a cell's face fluxes",
     "Surface integration and explicit divergence add to each cell the face values times fluxes of its faces, outgoing positive and incoming negative, divided by the cell's volume and multiplied by the operator's coefficient at that cell; what leaves one cell enters the other, so the volume-weighted sum over the mesh is the boundary flux alone. The result holds for scalar and vector fields, every interpolation scheme, through every way of calling the operator, for any previous content of the output, on every executor and for every schedule of the parallel loops.",
     ["inputs", "configurations", "schedules"], "every connection of up to three internal and two boundary faces to up to three cells, arbitrary volumes, fluxes, weights, values and coefficients; every interleaving on two cells; a chain of 300 cells with 48 further internal and 300 boundary faces in 22 patches",
     "The tests compute the divergence of a constant field on a uniform mesh, which is zero, so that most mistakes cancel.",
     [SFV + "operators/gaussGreenDiv.cpp", FV + "operators/gaussGreenDiv.hpp", SFV + "operators/surfaceIntegrate.cpp", FV + "operators/surfaceIntegrate.hpp", FV + "operators/divOperator.hpp"],
     [("explicit divergence", SFV + "operators/gaussGreenDiv.cpp computeDivExp"), ("integration", SFV + "operators/surfaceIntegrate.cpp surfaceIntegrate")], [], ["cell values of the result, source terms"],
     claim=(TECH + " (topology, schedules as choices; numbers symbolic over the reals)", NOTE))

prop("C20", "The implicit divergence adds exactly the upwind fluxes to the linear system",
     "Discretising a divergence implicitly adds to a linear system, entry by entry, the upwind fluxes of each cell's faces times the operator's coefficient of the row's cell, and to the right-hand side what the boundary contributes; the remaining contents of the system stay. Applied to a field with corrected boundary values the system gives the explicit upwind divergence times the volume. The boundary is represented by value fraction, reference value and reference gradient, so that fixed values and fixed gradients are both exact. All of this for any mesh, every executor, and every schedule.",
     ["inputs", "configurations", "schedules"], "every connection of up to three internal and two boundary faces to up to three cells, arbitrary fluxes, coefficients, boundary data and prior systems; every interleaving on two cells; a chain of 300 cells with 48 further internal and 300 boundary faces in 22 patches",
     "The tests assemble on a uniform mesh with unit fluxes and read few entries.",
     [SFV + "operators/gaussGreenDiv.cpp", FV + "operators/gaussGreenDiv.hpp", FV + "operators/divOperator.hpp"],
     [("implicit divergence", SFV + "operators/gaussGreenDiv.cpp computeDivImp")], [], ["matrix entries, right-hand side"],
     claim=(TECH + " (topology, schedules as choices; numbers symbolic over the reals)", NOTE))

prop("C21", "Gradients follow from the face values and face distances",
     "The normal gradient of an internal face is the difference of neighbour and owner value times the face's difference coefficient, and of a boundary face the difference of boundary and cell value. The Gauss gradient of a cell is the sum over its faces of the interpolated value times the outward area vector, divided by the cell's volume; a constant field on closed cells has no gradient. This holds for any mesh, geometry, field, every executor and every schedule, and computing a gradient leaves the field as it is.",
     ["inputs", "configurations", "schedules"], "every connection of up to three internal and two boundary faces to up to three cells, arbitrary areas, volumes, weights, coefficients and values; every interleaving on two cells; a chain of 300 cells with 48 further internal and 300 boundary faces in 22 patches",
     "The normal gradient is tested on a uniform mesh; the Gauss gradient is not tested.",
     [SFV + "faceNormalGradient/uncorrected.cpp", FV + "faceNormalGradient/uncorrected.hpp", FV + "faceNormalGradient/faceNormalGradient.hpp", SFV + "operators/gaussGreenGrad.cpp", FV + "operators/gaussGreenGrad.hpp"],
     [("normal gradient", SFV + "faceNormalGradient/uncorrected.cpp computeFaceNormalGrad"), ("Gauss gradient", SFV + "operators/gaussGreenGrad.cpp computeGrad")], [], ["face and cell gradients"],
     claim=(TECH + " (topology, schedules as choices; numbers symbolic over the reals)", NOTE))

prop("C22", "The Laplacian is the balance of diffusive fluxes, explicitly and implicitly",
     "The explicit Laplacian of a cell is the sum over its faces of diffusivity times face area times outward normal gradient, divided by the cell's volume and times the operator's coefficient. The implicit Laplacian adds exactly the same fluxes, times the row's coefficient, to the matrix and right-hand side, with boundary faces represented by value fraction, reference value and gradient, and leaves what was there. On boundary corrected fields both agree. All of this for scalars and vectors, any mesh, every executor and schedule, and through every way of calling it.",
     ["inputs", "configurations", "schedules"], "every connection of up to three internal and two boundary faces to up to three cells, arbitrary areas, volumes, diffusivity, coefficients, boundary data and prior systems; every interleaving on two cells; a chain of 300 cells with 48 further internal and 300 boundary faces in 22 patches",
     "The tests use a uniform mesh with unit diffusivity.",
     [SFV + "operators/gaussGreenLaplacian.cpp", FV + "operators/gaussGreenLaplacian.hpp", FV + "operators/laplacianOperator.hpp"],
     [("explicit Laplacian", SFV + "operators/gaussGreenLaplacian.cpp computeLaplacianExp"), ("implicit Laplacian", SFV + "operators/gaussGreenLaplacian.cpp computeLaplacianImpl")], [], ["cell values, matrix entries, right-hand side"],
     claim=(TECH + " (topology, schedules as choices; numbers symbolic over the reals)", NOTE))

prop("C23", "Boundary conditions write exactly their patch and stand for their rule",
     "Correcting a field's boundary conditions sets every face of a patch according to the patch's rule: a fixed value gives that value, a fixed gradient the cell value plus gradient times distance, an extrapolated patch the cell value; value fraction, reference value and reference gradient stand for exactly the same rule. Calculated and empty patches, other patches and the cells stay as they are; face fields also get their boundary faces set. Copies of fields and conditions behave the same and are independent. Unknown rules, missing values and fields that do not fit the mesh are refused.",
     ["inputs", "configurations"], "1..2 patches of any type over up to three boundary faces, arbitrary values, gradients, distances and previous contents; a chain of 300 cells with 48 further internal and 300 boundary faces in 22 patches",
     "The tests use one patch covering the boundary with one value.",
     [FV + "boundary/volume/fixedValue.hpp", FV + "boundary/volume/fixedGradient.hpp", FV + "boundary/volume/extrapolated.hpp", FV + "boundary/volume/calculated.hpp", FV + "boundary/surface/fixedValue.hpp", FV + "boundary/volumeBoundaryFactory.hpp", FV + "boundary/surfaceBoundaryFactory.hpp", FV + "fields/volumeField.hpp", FV + "fields/surfaceField.hpp"],
     [("fixed gradient", FV + "boundary/volume/fixedGradient.hpp setGradientValue"), ("fixed value", FV + "boundary/volume/fixedValue.hpp setFixedValue"), ("correction", FV + "fields/volumeField.hpp correctBoundaryConditions")], [], ["boundary values, reference values and gradients, fractions"],
     claim=(TECH + " (patches as choices; numbers symbolic over the reals)", NOTE))

prop("C24", "Expressions are the sums of their scaled terms",
     "A coefficient is the product of its number and its field at each cell, a product of coefficients the product at each cell, and a product of two fields is refused. Multiplying an operator scales its contribution; copies are independent. An expression made with plus, minus and factors contributes exactly the sum of its terms with their signs and factors, explicit terms to the explicit part, implicit terms to the system, time terms only where time terms are asked for, each exactly once; building it builds every term once. Source and rate operators contribute coefficient times field, and diagonal and old value entries; the functions of the language make the operators they are named after.",
     ["inputs", "histories", "configurations"], "every expression of two terms changed by up to two of seven operations, arbitrary contributions, coefficients, factors, times; up to three cells; a chain of 300 cells with 48 further internal and 300 boundary faces in 22 patches",
     "The tests add a handful of constant terms; a term that is silently skipped shows only in its contribution.",
     [I + "dsl/coeff.hpp", "src/dsl/coeff.cpp", I + "dsl/expression.hpp", I + "dsl/spatialOperator.hpp", I + "dsl/temporalOperator.hpp", I + "dsl/explicit.hpp", I + "dsl/implicit.hpp", FV + "operators/sourceTerm.hpp", SFV + "operators/sourceTerm.cpp", FV + "operators/ddtOperator.hpp", SFV + "operators/ddtOperator.cpp"],
     [("coefficients", "src/dsl/coeff.cpp"), ("expressions", I + "dsl/expression.hpp Expression"), ("operators", I + "dsl/spatialOperator.hpp SpatialOperator"), ("time derivative", SFV + "operators/ddtOperator.cpp")], [], ["coefficients, contributions to sources and systems"],
     claim=(TECH + " (shape of expressions as choices; numbers symbolic over the reals)", NOTE))

prop("C25", "Solving hands exactly the equation to the solver and steps correctly in time",
     "Solving a steady equation hands one system to the linear solver named in the solution settings, on the field's executor, whose matrix holds every implicit term and whose right-hand side holds every implicit term minus the explicit terms times the volume; the field then holds the solver's answer. A forward step subtracts time step times explicit terms from the old state and corrects the boundary; a backward step solves the system including the rate, every implicit and every explicit term. After each step the old state is the new one, over any number of steps. Assembled expressions hold the same system, also when assembled again; their product with a field is the residual; a reference value changes only its cell's row. Unknown schemes, solvers and empty equations are refused.",
     ["inputs", "histories", "configurations"], "up to three cells, up to three terms of any kind, two steps of any size, arbitrary contributions and answers of the solver; a chain of 300 cells with 48 further internal and 300 boundary faces in 22 patches",
     "No linear solver is available to the tests here; time steps are tested with one cell, one constant term and one step.",
     [I + "dsl/solver.hpp", I + "timeIntegration/forwardEuler.hpp", I + "timeIntegration/backwardEuler.hpp", I + "timeIntegration/timeIntegration.hpp", FV + "dsl/expression.hpp", I + "linearAlgebra/solver.hpp"],
     [("steady equation", I + "dsl/solver.hpp solve"), ("forward step", I + "timeIntegration/forwardEuler.hpp ForwardEuler::solve"), ("backward step", I + "timeIntegration/backwardEuler.hpp BackwardEuler::solve"), ("assembly", FV + "dsl/expression.hpp Expression::assemble")], [], ["the system handed to the solver, the field, its old state"],
     claim=(TECH + " (contributions, steps and the solver's answer symbolic; a recording solver registered in the harness)", NOTE))

prop("C26", "Registered fields and their old states keep identity, indices and contents",
     "A field registered in a collection is stored once, under the identity of its document, keeps its place while others are registered, knows its database, collection and key, and is found by key, by name and from the field itself; incomplete and repeated documents are refused. A copy of a field has the contents, boundary data and conditions of the original, the indices given or else those of the original, and lives independently. The old state of a field or of an old state is made once, at the first request, as a copy one time index earlier, and is found again afterwards whatever was written or asked for in between; its record names newer, older and current state and its level. Reading an old state that was never made is refused.",
     ["inputs", "histories", "configurations"], "up to three registered fields, every history of four requests for old states of two fields with arbitrary writes in between, arbitrary contents and indices; a chain of 12 old states, 40 fields",
     "The tests register one field and ask for two old states of it in order.",
     [I + "core/database/fieldCollection.hpp", "src/core/database/fieldCollection.cpp", I + "core/database/oldTimeCollection.hpp", "src/core/database/oldTimeCollection.cpp"],
     [("registration", I + "core/database/fieldCollection.hpp FieldCollection::registerField"), ("copy", I + "core/database/fieldCollection.hpp CreateFromExistingField"), ("old state", I + "core/database/oldTimeCollection.hpp OldTimeCollection::getOrInsert"), ("level", "src/core/database/oldTimeCollection.cpp setCurrentFieldAndLevel")], [], ["documents, fields, records of old states"],
     claim=(TECH + " (histories as choices; contents and indices symbolic)", NOTE))

prop("C27", "Runge-Kutta steps start from the current state, equation and time",
     "A step of the Runge-Kutta integrator with the forward Euler table subtracts time step times the explicit terms, evaluated at the start of the step, from the old state, and makes the result the old state; solving an equation repeatedly gives the same history as the forward Euler integrator. An integrator used for several steps takes the state, the equation and the time it is given each time, whatever happened in between. A copy of an integrator, made before or after its first step, integrates like the original and does not need it. Methods that are not supported are refused, and nothing of an integrator outlives it.",
     ["inputs", "histories"], "two cells, up to two (three) explicit terms that depend on the field, two (three) steps of any size, changes of state, equation and time between steps, every executor",
     "The tests of this integrator need SUNDIALS, which is not available to the tests here; they step one cell with one term and a fresh integrator and compare the order of the error only.",
     [I + "timeIntegration/rungeKutta.hpp", "src/timeIntegration/rungeKutta.cpp", I + "timeIntegration/sundials.hpp", I + "timeIntegration/timeIntegration.hpp"],
     [("step", "src/timeIntegration/rungeKutta.cpp RungeKutta::solve"), ("rate of change", I + "timeIntegration/sundials.hpp explicitRKSolve"), ("copy", "src/timeIntegration/rungeKutta.cpp RungeKutta::RungeKutta")], [], ["the field, its old state, the objects of the stepper"],
     claim=(TECH + " (contributions, steps and changes symbolic; the stepper of SUNDIALS is the model in shim/nf_sundials.hpp)", NOTE))

prop("C29", "Communication buffers keep ranks apart and complete every message",
     "After any history of sizing, naming and finishing, with elements of any type, a buffer gives every rank exactly the number of elements it was sized for, disjoint from all others. Starting posts one message to and from every rank with elements, with the number of bytes they have, a valid tag that depends on the name alone, and no other; the buffer is complete when and only when every message is, waiting ends then, and what was sent to a rank is what it received, whatever the delays and the moment of the transfer. Misuse (use before naming, naming twice, other element sizes, starting or finishing while messages are under way, a wrong number of ranks) ends the program in a debug build. Types, operations and reductions are handed to MPI as what they are. MPI itself is started once, with the thread support that is required, and ended once.",
     ["inputs", "histories", "schedules", "configurations"], "up to three ranks, two elements between each two, two rounds, up to two delays, early or late transfer; histories of three uses; every type and operation; 70 ranks, 300 elements",
     "The tests need MPI, send one integer between all ranks and see only the order that happens.",
     [I + "core/mpi/halfDuplexCommBuffer.hpp", "src/core/mpi/halfDuplexCommBuffer.cpp", I + "core/mpi/fullDuplexCommBuffer.hpp", I + "core/mpi/operators.hpp", I + "core/mpi/environment.hpp"],
     [("layout", I + "core/mpi/halfDuplexCommBuffer.hpp updateDataSize"), ("messages", "src/core/mpi/halfDuplexCommBuffer.cpp"), ("types and operations", I + "core/mpi/operators.hpp")], [], ["elements, posted messages, completion"],
     claim=(TECH + " (MPI is a model with arbitrary delays and transfer times; shim/mpi.h)", NOTE))

prop("C30", "An exchange gives every receiving cell the sender's value and nothing else",
     "After the start and the end of an exchange on all ranks, every cell named for receiving holds the value the sending rank's cell had at the start, and every other cell what it had or was given meanwhile; starting changes nothing. This holds for any number of exchanges under way at the same time, of any types and names, finished in any order on each rank, for exchanges that follow each other on the same buffers, for fields on every executor, and whatever the delays of the messages.",
     ["inputs", "histories", "schedules", "configurations"], "up to three ranks, up to two values between each two, up to three exchanges at the same time, four after one another, up to two delays, early or late transfer; nine at the same time of up to 290 values",
     "The tests need MPI and make one exchange of one value between all ranks.",
     [I + "mesh/unstructured/communicator.hpp", "src/mesh/unstructured/communicator.cpp", I + "core/mpi/fullDuplexCommBuffer.hpp", I + "core/mpi/halfDuplexCommBuffer.hpp", "src/core/mpi/halfDuplexCommBuffer.cpp"],
     [("start", I + "mesh/unstructured/communicator.hpp Communicator::startComm"), ("end", I + "mesh/unstructured/communicator.hpp Communicator::finaliseComm"), ("buffers", "src/mesh/unstructured/communicator.cpp findDuplexBuffer")], [], ["cells of the field on every rank"],
     claim=(TECH + " (ranks are objects of one process over a model of MPI; shim/mpi.h)", NOTE))

prop("C31", "The Courant number is half the largest flux per volume times the step",
     "The Courant number of a flux field and a time step is half the step times the largest, over all cells, of the sum of the absolute fluxes through the cell's internal and boundary faces divided by its volume, for any mesh, fluxes, volumes and step, on every executor, for every schedule of the loops and every way of splitting the reductions; computing it changes nothing.",
     ["inputs", "configurations", "schedules"], "every connection of up to two internal and two boundary faces to up to three cells, arbitrary volumes, fluxes and step; every interleaving on two cells; every split on three; a chain of 300 cells with 48 further internal and 300 boundary faces in 22 patches",
     "The tests compute one value on a uniform mesh.",
     [SFV + "auxiliary/coNum.cpp", FV + "auxiliary/coNum.hpp"],
     [("Courant number", SFV + "auxiliary/coNum.cpp computeCoNum")], [], ["the number returned"],
     claim=(TECH + " (topology, schedules and splits as choices; numbers symbolic over the reals)", NOTE))

prop("C32", "Vectors obey componentwise algebra, also when operands overlap",
     "Sums, differences and products with numbers and integers of vectors are componentwise, the inner product is the sum of the products of the components, the magnitude the nonnegative root of the inner product with itself, equality means equality of all components. Components are read, written and stored in order, a copy has its own. Operands may be the changed vector itself or one of its components. Zero and one of every primitive type are the identities of addition and multiplication; a vector is written as its three components.",
     ["inputs"], "arbitrary vectors and numbers over the reals, integers -3..3",
     "The tests use a few fixed vectors and never let operands overlap.",
     [I + "core/primitives/vector.hpp", "src/core/primitives/vector.cpp", I + "core/primitives/scalar.hpp", I + "core/primitives/label.hpp", I + "core/primitives/traits.hpp"],
     [("algebra", I + "core/primitives/vector.hpp Vector")], [], ["components of the results"],
     claim=(TECH + " (components symbolic over the reals)", NOTE))

prop("C28", "Host code never touches device memory nor device code host memory",
     "With the executor of a device whose memory is separate from the host's, every access made by host code is to host memory and every access made by a kernel is to device memory (its own variables excepted): for histories of fields, field arithmetic, segmented fields, boundary data, stencils, sparsity patterns, matrices and products, geometry schemes, all interpolation and discretisation operators, boundary conditions, expressions, solves, registered fields, exchanges and the Courant number; and the results are those of the other executors.",
     ["inputs", "histories", "configurations"], "as in the properties named above, on the device executor, kernels in ascending order",
     "The tests run on the host, where every pointer can be dereferenced; no device is available there.",
     [I + "fields/field.hpp", I + "fields/boundaryFields.hpp", I + "core/parallelAlgorithms.hpp", SFV, FV, "src/dsl/", I + "dsl/", I + "linearAlgebra/", I + "mesh/unstructured/communicator.hpp"],
     [("fields", I + "fields/field.hpp Field"), ("kernels", I + "core/parallelAlgorithms.hpp parallelFor"), ("boundary data", I + "fields/boundaryFields.hpp BoundaryFields")], [], ["accessed addresses", "results"],
     claim=(TECH + " (every load, store and copy is checked against the memory space of the object it reaches; counterexamples are replayed with page protection)", NOTE))

prop("C34", "The PETSc back end solves the given system and returns its solution",
     "Solving with the PETSc back end assembles one system with the size, matrix entries and right-hand side of the linear system, whatever its pattern, including rows without entries and rows whose columns are in any order; the field then holds the solution, on its executor. The linear system is not changed, everything made for the solve is freed, further systems can be solved with the same solver, and a copy of a solver solves like the original.",
     ["inputs", "histories", "configurations"], "one or two systems of up to two (three) rows of any pattern with arbitrary values, every executor, host and device memory kept apart",
     "The tests of this back end need PETSc, which is not available to the tests here; they solve two full systems of three rows.",
     [I + "linearAlgebra/petsc.hpp", I + "linearAlgebra/petscSolverContext.hpp", I + "linearAlgebra/solver.hpp"],
     [("solve", I + "linearAlgebra/petsc.hpp petscSolver::solve"), ("assembly", I + "linearAlgebra/petscSolverContext.hpp petscSolverContext::initialize")], [], ["the system the library is asked to solve, the field, the linear system"],
     claim=(TECH + " (values symbolic, patterns and executors as choices; PETSc is the model in shim/nf_petsc.hpp)", NOTE))

prop("C35", "The Ginkgo back end solves the given system with the given configuration",
     "Creating a Ginkgo solver turns the solution dictionary into a configuration with the same entries: texts, integers and reals keep type and value, dictionaries are nested, and any other type of entry is refused with an error. Solving hands over a matrix with the values, columns and rows of the linear system, its right-hand side and the field as initial guess, on an executor for the memory they are in; the field then holds the solution. The linear system is not changed, nothing is left behind, further systems can be solved with the same solver, and a copy of a solver solves like the original.",
     ["inputs", "histories", "configurations"], "dictionaries with up to two (three) entries of any type nested once; one or two systems of up to two (three) rows with up to two entries each at any columns, arbitrary values, every executor, host and device memory kept apart",
     "The tests of this back end need Ginkgo, which is not available to the tests here; they solve one system of three rows and parse one entry per type.",
     [I + "linearAlgebra/ginkgo.hpp", "src/linearAlgebra/ginkgo.cpp", I + "linearAlgebra/utilities.hpp", "src/linearAlgebra/utilities.cpp", I + "linearAlgebra/solver.hpp"],
     [("configuration", "src/linearAlgebra/ginkgo.cpp parse"), ("solve", I + "linearAlgebra/ginkgo.hpp GinkgoSolver::solve"), ("matrix and vectors", I + "linearAlgebra/utilities.hpp createGkoMtx")], [], ["the configuration and the system the library gets, the field, the linear system"],
     claim=(TECH + " (values symbolic, patterns, entries and executors as choices; Ginkgo is the model in shim/ginkgo/ginkgo.hpp)", NOTE))

prop("C36", "One step of a transport equation obeys balance, conservation and bounds",
     "One explicit step of an equation of flow, diffusion and sources changes every cell by the balance of what crosses its faces and of its source; the system of one implicit step is that balance for the new state, on every executor and whatever order the mesh's connectivity was gathered in. Without boundary faces the total is neither lost nor created, a uniform state in a divergence-free flow stays uniform, and upwind transport with diffusion creates no new extremes (explicitly within the step limit).",
     ["inputs", "schedules", "configurations"], "up to three cells and two internal faces, up to two boundary faces with fixed value or gradient, every mixture of the terms, arbitrary volumes, fluxes, coefficients, states and steps, every executor",
     "The operators, the integrators and the assembly are tested alone, with constant fields or one cell; no test combines them into a transport equation, and none has a second order of the connectivity.",
     [I + "dsl/solver.hpp", I + "timeIntegration/forwardEuler.hpp", I + "timeIntegration/backwardEuler.hpp", FV + "operators/gaussGreenDiv.hpp", SFV + "operators/gaussGreenDiv.cpp", SFV + "operators/gaussGreenLaplacian.cpp", SFV + "interpolation/upwind.cpp", SFV + "interpolation/linear.cpp", FV + "linearAlgebra/sparsityPattern.hpp"],
     [("explicit step", I + "timeIntegration/forwardEuler.hpp ForwardEuler::solve"), ("implicit step", I + "timeIntegration/backwardEuler.hpp BackwardEuler::solve"), ("place of the entries", FV + "linearAlgebra/sparsityPattern.hpp SparsityPattern::readOrCreate")], [], ["the field after a step, its boundary, the system handed to the solver"],
     claim=(TECH + " (numbers symbolic, terms, boundary conditions, schemes and executors as choices; a recording solver registered in the harness)", NOTE))
