"""What each check runs: harness files, entries, bounds."""
CORE = ["core/**/*.cpp"]
CHECKS = {}


def check(pid, harness, entries, **kw):
    d = {"harness": harness, "entries": entries}
    d.update(kw)
    CHECKS[pid] = d


def E(name, bound="", **kw):
    d = {"name": name, "bound": bound}
    d.update(kw)
    return d


check("C01", ["C01_dictionary.cpp"], [
    E("c01_history", "every history of 3 (thorough 4) operations over 2 keys and 4 value types; values symbolic", jobs=6),
    E("c01_keys", "keys of 0..2 arbitrary bytes or long ones", hash=0, reach=["end", "same", "different"]),
    E("c01_long", "every history of 5 (thorough 7) insertions/removals over two keys"),
    E("c01_growth", "24 (thorough 60) keys, any one removed and any one overwritten"),
    E("c01_construct", "two keys of 0..1 arbitrary bytes", hash=0, reach=["end", "list", "map"]),
    E("c01_nested", "three levels, arbitrary values"),
    E("c01_types", "19 stored types and the empty value, each read as every type, arbitrary values", jobs=2),
    E("c01_replace", "every pair of 7 (20) types, three ways to replace", jobs=4),
    E("c01_references", "references held over insertion of 30 keys, removal and overwriting"),
    E("c01_alias", "arguments that are parts of the dictionary"),
    E("c01_hundreds", "300 (1100) keys, a third removed from a copy"),
    E("c01_near", "two keys and 21 texts close to them"),
    E("c01_words", "a stored and a requested key of 0..12 (18) arbitrary bytes", hash=0, reach=["same", "different"], jobs=4),
    E("c01_texts", "a text value of 0..8 (16) arbitrary bytes read as 19 types", jobs=2),
    E("c01_paths", "three levels, a requested key of 0..6 (9) arbitrary bytes", hash=0, reach=["same", "different"], jobs=2),
    E("c01_assign", "every pair of subsets of 3 (4) keys, six ways to assign", jobs=4),
    E("c01_failures", "0..27 (45) keys, every pair (four) of failed accesses", jobs=2),
    E("c01_longkeys", "13 lengths from 15 to 1024 bytes, one differing byte anywhere or one fewer", jobs=2),
], sources=CORE, bounds="see entries")

check("C02", ["C02_tokenlist.cpp"], [
    E("c02_history", "every history of 4 (thorough 5) operations; element types and values symbolic", jobs=6),
    E("c02_construct", "three elements of any type, any start position", reach=["end", "list", "vector"]),
    E("c02_assign", "two lists of 0..2 (4) tokens at any positions; copy, move, swap and self assignment", jobs=4),
    E("c02_input", "both alternatives, arbitrary values"),
    E("c02_long", "18 (40) tokens, any reading position, one operation at any place"),
    E("c02_types", "19 element types and the empty value, each read as every type, arbitrary values", jobs=2),
    E("c02_texts", "text elements of 0..8 (16) arbitrary bytes read as 19 types", jobs=2),
    E("c02_holds", "dictionaries and lists of 0..2 dictionaries, lists, numbers or texts"),
    E("c02_hundreds", "300 elements read in order in three ways, seven positions outside"),
    E("c02_position", "0..3 elements, any 64-bit position", reach=["inside", "outside"]),
    E("c02_failures", "0..27 (45) elements, every pair of failed accesses", jobs=2),
    E("c02_beyond", "0..2 elements, any reading position up to 5, every history of 4 (6) operations", jobs=2),
    E("c02_alias", "elements of the list and the list itself as arguments"),
], sources=CORE)
check("C03", ["C03_document.cpp"], [
    E("c03_unique", "every history of 4 (thorough 6) document creations", jobs=6),
    E("c03_validator", "arbitrary contents and validator threshold", reach=["rejected", "accepted"]),
    E("c03_many", "300 (1200) documents"),
    E("c03_words", "an identity of 0..8 (14), a name of 0..3 (6) and a key of 0..3 arbitrary bytes", hash=0, reach=["own", "new"], jobs=4),
    E("c03_assign", "two documents, six ways to assign, arbitrary contents and limits", jobs=2),
    E("c03_large", "documents of 0..132 (264) entries, arbitrary values and limits", reach=["refused", "accepted"]),
    E("c03_late", "after 20 numbers of documents up to 2147483640"),
    E("c03_default", "names of 0..2 arbitrary bytes", hash=0),
    E("c03_concurrent", "every interleaving (at atomic operations) of 2 threads creating 2 documents each (thorough: 3 threads, 1 each); every pair of conflicting accesses checked", no_validate=True),
], sources=CORE, defs=["-include", "nf_atomic.hpp"])
check("C04", ["C04_database.cpp"], [
    E("c04_database", "every history of 4 (thorough 5) insertions/removals over 2 (3) names", jobs=6),
    E("c04_collection", "3 (thorough 4) documents with arbitrary values, arbitrary threshold"),
    E("c04_many", "12 (thorough 30) documents and one of a chosen identity, arbitrary threshold"),
    E("c04_erasure", "arbitrary values"),
    E("c04_words", "a stored and a requested name of 0..8 (14) arbitrary bytes", hash=0, reach=["same", "different"], jobs=4),
    E("c04_ids", "a stored and a requested identity of 0..8 (14) arbitrary bytes", hash=0, reach=["same", "different"], jobs=4),
    E("c04_lookups", "three collections in two databases, every history of 3 (4) lookups", jobs=2),
    E("c04_types", "every history of 4 (5) insertions and removals of empty, filled and other collections under one name", jobs=2),
    E("c04_identities", "3 identities of 0..1 (2) arbitrary bytes or long, every set of matching documents", hash=0, jobs=3),
    E("c04_hundreds", "300 (1100) documents, every one, second or third matching"),
    E("c04_near", "two names and 21 texts close to them"),
    E("c04_wide", "18 (40) collections, any one removed, then a new one under the same or another name"),
], sources=CORE)
check("C05", ["C05_factory.cpp"], [
    E("c05_create", "names of 0..2 arbitrary bytes or long ones, arbitrary arguments", hash=0, reach=["built", "refused"]),
    E("c05_many", "70 implementations, arguments moved, copied and referred to"),
    E("c05_words", "a name of 0..9 (16) arbitrary bytes", hash=0, reach=["end"], jobs=2),
    E("c05_apart", "every pair of three base classes"),
    E("c05_long", "16 names of 300 bytes that differ in one place, one of 20 places of a name changed to anything", hash=0, reach=["built", "refused"], jobs=4),
    E("c05_near", "17 names close to registered ones", reach=["refused"]),
    E("c05_table", "every registered name, arbitrary other names", hash=0),
], sources=CORE)
check("C06", ["C06_stencildb.cpp"], [
    E("c06_history", "every history of 3 (thorough 5) operations over 3 (2) keys", jobs=6),
    E("c06_keys", "three keys of 0..2 arbitrary bytes", hash=0),
    E("c06_types", "every pair of 19 and 5 (19) types, each read as every type", jobs=4),
    E("c06_many", "300 (1100) keys of four lengths up to 300"),
    E("c06_near", "two keys and 21 texts close to them"),
    E("c06_words", "a stored and a requested key of 0..12 (18) arbitrary bytes", hash=0, reach=["same", "different"], jobs=4),
    E("c06_texts", "a text value of 0..8 (16) arbitrary bytes read as 19 types"),
    E("c06_failures", "0..27 (45) keys, every pair of failed accesses", jobs=2),
    E("c06_growth", "20 (60) keys, any one inserted twice and any one assigned"),
], sources=["core/**/*.cpp", "finiteVolume/cellCentred/stencil/stencilDataBase.cpp"])
check("C07", ["C07_view.cpp", "C07b_view.cpp"], [
    E("c07_checked", "views of 0..4 (6) elements, every 64-bit index", reach=["element", "refused"]),
    E("c07_record", "three accesses with any 64-bit indices, then one that is told to abort", reach=["clean", "recorded", "refused"]),
    E("c07_any", "views of any length of elements of three sizes, every 64-bit index", reach=["element", "recorded", "refused"]),
    E("c07_build", "every sub-range of four elements"),
    E("c07_release", "views of 1..4 elements, every index in range"),
], sources=[])
check("C08", ["C08_parallel.cpp"], [
    E("c08_for_range", "every sub-range (also empty and reversed) of 3 (4) indices, every executor, every order of iterations"),
    E("c08_for_field", "fields of 0..3 (4) elements, every executor, every order of iterations"),
    E("c08_reduce", "every sub-range of 3 (5) arbitrary reals, sum/max/min, every split into two teams, arbitrary previous value"),
    E("c08_scan", "every sub-range of 4 (6) arbitrary reals, every split into two teams"),
    E("c08_sum", "fields of 0..3 (5) arbitrary reals"),
    E("c08_executors", "every pair of executors"),
    E("c08_long", "ranges of 257, 1100 and 66000 indices, first index up to 2^32, every executor"),
], sources=["executor/*.cpp", "core/**/*.cpp"])
check("C33", ["C33_error.cpp", "C33b_error.cpp", "C33c_error.cpp"], [
    E("c33_assert", "all comparisons of two integers, all assertion forms", reach=["passed", "refused"]),
    E("c33_throw", "all comparisons of two integers, all assertion forms", reach=["passed", "threw"]),
    E("c33_expressions", "arguments that are expressions, numbers and texts; throwing forms as statements", reach=["passed", "threw"]),
    E("c33_stop", "the same for the terminating forms", reach=["passed", "refused"]),
    E("c33_exit", "arbitrary message", reach=["refused"]),
    E("c33_length", "all lengths 0..5"),
    E("c33_mpi", "all comparisons of two integers, all terminating forms, with message passing", reach=["passed", "refused"]),
    E("c33_messages", "messages of eight lengths up to 5000 bytes, values without an order, all forms", reach=["passed", "threw", "refused"]),
    E("c33_again", "three (four) uses of one assertion, every form and outcome", reach=["end"], jobs=2),
    E("c33_wide", "100 pairs of 64-bit values", reach=["passed", "refused"]),
    E("c33_release", "all comparisons of two integers", reach=["passed", "refused"]),
], sources=CORE, probes={"C33_error.cpp": "a use of the throwing assertions with a streamed message"})
FIELDS = ["executor/*.cpp", "core/*.cpp", "core/primitives/*.cpp"]
check("C09", ["C09_field_storage.cpp"], [
    E("c09_history_scalar", "every history of 3 (4) operations (resize, assign, uniform, copy, other executor, move), lengths 0..3, every executor", jobs=6),
    E("c09_history_vector", "every history of 2 (3) operations, lengths 0..3, every executor"),
    E("c09_history_int", "every history of 2 (3) operations, lengths 0..3, every executor"),
    E("c09_construct", "lengths 0..4, every pair of executors, every sub-range"),
    E("c09_refuse", "every pair of executors", reach=["refused", "assigned"]),
    E("c09_long", "fields of 257, 1100, 40000 and 66000 elements, every pair of executors, one arbitrary value"),
    E("c09_into", "every pair of lengths 0..2 and 0..3, every executor", reach=["copied"]),
    E("c09_block_scalar", "blocks of 1..3 scalars taken from every executor, resized to 1..4, arbitrary values", reach=["end"]),
    E("c09_block_vector", "blocks of 1..3 vectors taken from every executor, resized to 1..4, arbitrary values", reach=["end"]),
], sources=FIELDS)
check("C10", ["C10_field_ops.cpp"], [
    E("c10_range", "lengths 0..3 (4), sources also longer, every sub-range, every executor, ascending and descending order"),
    E("c10_arith", "every pair of lengths 0..3, every executor", reach=["end", "refused"]),
    E("c10_products", "lengths 0..2, every executor"),
    E("c10_long", "fields of 256, 257 and 1100 elements, one arbitrary element, every pair of executors"),
    E("c10_equal", "every pair of lengths 0..2, every pair of executors", reach=["same", "different"]),
], sources=FIELDS, probes={"C10_field_ops.cpp": "a use of every field operation"})
check("C11", ["C11_segmented.cpp"], [
    E("c11_offsets", "0..4 (6) segments of any lengths up to 10^6, every executor, every split of the scan into two teams"),
    E("c11_segments", "1..3 (4) segments of 0..2 (3) values, every executor, every order of iterations"),
    E("c11_refuse", "0..3 segments, 1..5 offsets, every executor", reach=["refused", "end"]),
    E("c11_long", "256, 300 and 1100 segments, one of 0, 256 or 512 values, every executor"),
    E("c11_construct", "1..3 segments of 0..2 values, every pair of executors", reach=["end", "refused"]),
], sources=FIELDS)
MESH = FIELDS + ["core/**/*.cpp", "mesh/**/*.cpp", "dsl/*.cpp", "finiteVolume/**/*.cpp", "linearAlgebra/*.cpp", "timeIntegration/*.cpp"]
check("C12", ["C12_boundary_mesh.cpp"], [
    E("c12_patches", "1..3 (4) patches (also empty) over 0..3 (4) boundary faces, arbitrary geometry", jobs=4),
    E("c12_mesh", "any mesh of two cells, every executor"),
    E("c12_fields_scalar", "1..2 patches over 0..2 faces, arbitrary values, every pair of executors", jobs=4),
    E("c12_fields_vector", "1..2 patches over 0..2 faces, arbitrary values, every pair of executors", jobs=4),
    E("c12_large", "300 patches over 70000 boundary faces"),
], sources=MESH)
check("C13", ["C13_mesh_factories.cpp"], [
    E("c13_uniform", "uniform meshes of 1..6 (16) cells, every executor, both iteration orders"),
    E("c13_single", "every executor"),
    E("c13_long", "uniform meshes of 300 and 33000 (66000) cells, every executor", jobs=6),
], sources=MESH)
check("C14", ["C14_stencil.cpp"], [
    E("c14_any", "every connection of 0..3 (4) internal and 0..1 (2) boundary faces to 1..3 (4) cells, every executor, both iteration orders", jobs=8),
    E("c14_boundary", "two (three) boundary faces of 1..2 cells, every executor, both iteration orders"),
    E("c14_orders", "every connection of 2 (3) internal and 1 (2) boundary faces to 3 cells, every order of iterations", jobs=6),
    E("c14_interleaved", "2 cells, 1..2 internal and 0..1 (2) boundary faces, every interleaving at atomic operations"),
    E("c14_uniform", "uniform meshes of 1..5 (12) cells, every executor"),
    E("c14_many", "a cell with 300 (400) internal and as many boundary faces, 301 (401) cells", jobs=4),
], sources=MESH)
check("C15", ["C15_sparsity.cpp"], [
    E("c15_any", "every connection of 0..3 (4) internal faces to 1..3 (4) cells, every executor, both iteration orders", jobs=6),
    E("c15_orders", "every connection of 2 (3) internal faces to 3 cells, every order of iterations"),
    E("c15_interleaved", "2..3 cells, 2 internal faces, every interleaving at atomic operations", jobs=6),
    E("c15_many", "a cell with 40 and with 254 faces, as owner or as neighbour", jobs=4),
    E("c15_cached", "every connection of 2 faces to 3 cells"),
    E("c15_again", "three meshes one after another in the same place, every connection"),
    E("c15_copy", "every connection of 2 faces to 3 cells, copies of the mesh that outlive it"),
    E("c15_kept", "every connection of 2 faces to 3 cells"),
], sources=MESH)
check("C16", ["C16_matrix.cpp", "C16b_convert.cpp"], [
    E("c16_entry", "2x3 matrices with 0..2 (3) entries per row in any order, arbitrary values, every position", reach=["found", "refused"]),
    E("c16_copy_scalar", "0..2 rows with 0..2 entries, arbitrary values, every pair of executors", jobs=4),
    E("c16_copy_vector", "0..2 rows with 0..2 entries, arbitrary values, every pair of executors", jobs=4),
    E("c16_refuse", "every triple of executors, right-hand sides of 0..3 entries", reach=["accepted", "refused"]),
    E("c16_refuse_rhs", "every pair of executors", reach=["accepted", "refused"]),
    E("c16_spmv", "0..2 (3) rows with any two entries each, arbitrary values"),
    E("c16_convert", "1..2 rows with 0..2 entries, arbitrary values"),
    E("c16_convert_system", "a 2x2 system of arbitrary values"),
    E("c16_convert_values", "a 2x2 system of arbitrary values"),
    E("c16_long", "66000 rows, three arbitrary values of each kind"),
], sources=FIELDS, probes={"C16b_convert.cpp": "a use of convertLinearSystem"})
check("C17", ["C17_geometry.cpp"], [
    E("c17_weights", "any connection of 1 (2) internal and 1 boundary face to 2 (3) cells, arbitrary geometry"),
    E("c17_delta", "any connection of 0..1 (2) internal and 1 boundary face to 2 (3) cells, arbitrary geometry"),
    E("c17_axis", "two cells and their faces anywhere along one axis, faces turned either way"),
    E("c17_skew", "two cells, 3 directions of the area, 3 of the distance, 4 of the face centre, any distances along them", jobs=6),
    E("c17_again", "three meshes one after another in the same place, arbitrary face centres, host executors"),
    E("c17_cached", "every executor", reach=["refused"]),
], sources=MESH)
check("C18", ["C18_interpolation.cpp"], [
    E("c18_linear_scalar", "any connection of 0..1 (3) internal and 0..1 (2) boundary faces to 1..2 (3) cells, arbitrary weights and values, every executor", jobs=3),
    E("c18_linear_vector", "the same for vectors", jobs=3),
    E("c18_upwind_scalar", "the same with arbitrary fluxes", jobs=3),
    E("c18_upwind_vector", "the same with arbitrary fluxes for vectors", jobs=3),
    E("c18_bounded", "two cells, arbitrary weights in [0, 1] and values"),
    E("c18_select", "every executor, arbitrary weights", reach=["weights", "refused"]),
    E("c18_long_linear", "a chain of 300 cells with 48 further internal and 300 boundary faces; two values of each quantity arbitrary, the others given", jobs=6),
    E("c18_long_upwind", "a chain of 300 cells with 48 further internal and 300 boundary faces; two values of each quantity arbitrary, the others given", jobs=6),
    E("c18_long_vector", "a chain of 300 cells with 48 further internal and 300 boundary faces; two values of each quantity arbitrary, the others given", jobs=6),
], sources=MESH)
check("C19", ["C19_div_explicit.cpp"], [
    E("c19_integrate_scalar", "any connection of 1..2 (3) internal and 0..2 boundary faces to 1..2 (3) cells, arbitrary volumes, fluxes and coefficients, every executor", jobs=3),
    E("c19_integrate_vector", "the same for vectors", jobs=3),
    E("c19_linear_scalar", "1..2 internal, 0..1 (2) boundary faces, arbitrary weights, volumes, fluxes, values and coefficients, every executor", jobs=4),
    E("c19_linear_vector", "the same for vectors", jobs=4),
    E("c19_upwind_scalar", "the same with upwind values", jobs=4),
    E("c19_upwind_vector", "the same with upwind values of vectors", jobs=4),
    E("c19_conservation", "any connection of 1..2 (3) internal and 0..1 (2) boundary faces to 1..3 cells, arbitrary fluxes and values"),
    E("c19_interleaved", "2 cells, 2 internal and 1 (2) boundary faces, every interleaving at atomic operations"),
    E("c19_long_integrate", "a chain of 300 cells with 48 further internal and 300 boundary faces; two values of each quantity arbitrary, the others given", jobs=6),
    E("c19_long_linear", "a chain of 300 cells with 48 further internal and 300 boundary faces; two values of each quantity arbitrary, the others given", jobs=6),
    E("c19_long_upwind", "a chain of 300 cells with 48 further internal and 300 boundary faces; two values of each quantity arbitrary, the others given", jobs=6),
], sources=MESH)
check("C20", ["C20_div_implicit.cpp"], [
    E("c20_scalar", "any connection of 0..1 internal and 0..1 (2) boundary faces to 1..2 cells, arbitrary fluxes, coefficients, boundary data and prior system, every executor and form", jobs=4),
    E("c20_vector", "the same for vectors", jobs=4),
    E("c20_larger", "any connection of 2 (3) internal and 1 (2) boundary faces to 3 cells, arbitrary fluxes, coefficient fields, boundary data and prior system, every executor", jobs=4),
    E("c20_interleaved", "2 cells, 1 internal and 2 boundary faces, every interleaving at atomic operations"),
    E("c20_agree", "2 cells, fixed values or gradients, arbitrary fluxes and values, every executor"),
    E("c20_long", "a chain of 300 cells with 48 further internal and 300 boundary faces; two values of each quantity arbitrary, the others given", jobs=6),
], sources=MESH)
check("C21", ["C21_gradient.cpp"], [
    E("c21_normal_scalar", "any connection of 0..2 (3) internal and 0..2 boundary faces to 1..2 (3) cells, arbitrary coefficients and values, every executor", jobs=3),
    E("c21_normal_vector", "the same for vectors", jobs=3),
    E("c21_gauss", "any connection of 0..2 (3) internal and 0..2 boundary faces to 1..2 (3) cells, arbitrary areas, volumes, weights and values, every executor", jobs=3),
    E("c21_constant", "two cells closed by arbitrary areas, any constant"),
    E("c21_interleaved", "2 cells, 2 internal and 1 (2) boundary faces, every interleaving at atomic operations"),
    E("c21_long_normal", "a chain of 300 cells with 48 further internal and 300 boundary faces; two values of each quantity arbitrary, the others given", jobs=6),
    E("c21_long_gauss", "a chain of 300 cells with 48 further internal and 300 boundary faces; two values of each quantity arbitrary, the others given", jobs=6),
], sources=MESH)
check("C22", ["C22_laplacian.cpp"], [
    E("c22_exp_scalar", "any connection of 0..1 internal and 0..1 (2) boundary faces to 1..2 cells, arbitrary areas, volumes, diffusivity, values and coefficients, every executor and form", jobs=3),
    E("c22_exp_vector", "the same for vectors", jobs=3),
    E("c22_exp_larger", "2 (3) internal and 1..2 boundary faces, 3 cells", jobs=3),
    E("c22_exp_interleaved", "2 cells, 1 internal and 2 boundary faces, every interleaving at atomic operations"),
    E("c22_imp_scalar", "any connection of 0..1 internal and 0..1 (2) boundary faces to 1..2 cells, arbitrary areas, diffusivity, boundary data, coefficients and prior system, every executor and form", jobs=3),
    E("c22_imp_vector", "the same for vectors", jobs=3),
    E("c22_imp_larger", "2 (3) internal and 1..2 boundary faces, 3 cells", jobs=3),
    E("c22_imp_interleaved", "2 cells, 1 internal and 2 boundary faces, every interleaving at atomic operations"),
    E("c22_agree", "2 cells, fixed values or gradients, arbitrary diffusivity and values, every executor"),
    E("c22_long_exp", "a chain of 300 cells with 48 further internal and 300 boundary faces; two values of each quantity arbitrary, the others given", jobs=6),
    E("c22_long_imp", "a chain of 300 cells with 48 further internal and 300 boundary faces; two values of each quantity arbitrary, the others given", jobs=6),
], sources=MESH)
check("C23", ["C23_boundary_conditions.cpp"], [
    E("c23_volume_scalar", "1..2 patches of any type over 0..2 (3) boundary faces of two cells, arbitrary values, gradients, distances and previous contents, every executor", jobs=3),
    E("c23_volume_vector", "the same for vectors", jobs=3),
    E("c23_surface_scalar", "1..2 patches of any type over 0..2 (3) boundary faces, 0..2 internal faces, arbitrary values and previous contents, every executor", jobs=2),
    E("c23_surface_vector", "the same for vectors", jobs=2),
    E("c23_all", "1..3 patches over 2 faces, every executor"),
    E("c23_refuse", "unknown names, misfitting sizes, missing values", reach=["refused", "fits", "missing"]),
    E("c23_long_volume", "a chain of 300 cells with 48 further internal and 300 boundary faces; two values of each quantity arbitrary, the others given; every pair of conditions on the first two of 22 patches", jobs=4),
    E("c23_long_surface", "the same for face fields", jobs=4),
], sources=MESH)
check("C24", ["C24_dsl.cpp"], [
    E("c24_coeff", "every pair of coefficients (number, field, both) of 0..2 (3) cells, arbitrary values, every executor", reach=["refused", "field", "number"]),
    E("c24_square", "every coefficient (number, field, both) of two cells, arbitrary values, every executor", reach=["refused", "end"]),
    E("c24_spatial", "any coefficient and factor, every executor and kind"),
    E("c24_temporal", "any coefficient and factor, every executor and kind"),
    E("c24_expression", "every sum or difference of two terms, changed by any 1 (2) of seven operations, arbitrary values, factors and times, every executor", jobs=4),
    E("c24_single", "no, one or two terms of every kind, every executor"),
    E("c24_source_scalar", "1..2 (3) cells, arbitrary volumes, values, coefficients and prior contents, every executor", reach=["explicit", "implicit"]),
    E("c24_source_vector", "the same for vectors", reach=["explicit", "implicit"]),
    E("c24_ddt_scalar", "1..2 (3) cells, arbitrary volumes, values, old values, time steps, coefficients and prior contents, every executor", reach=["explicit", "implicit"]),
    E("c24_ddt_vector", "the same for vectors", reach=["explicit", "implicit"]),
    E("c24_make", "two cells, arbitrary values, every operator, scheme found by name or given, every executor"),
    E("c24_unbuilt", "every operator and executor", reach=["refused"]),
    E("c24_assign", "arbitrary values and factors, every kind and executor"),
    E("c24_long_coeff", "300 cells, two values of each field arbitrary", reach=["refused", "field", "number"]),
    E("c24_long", "32 and 26 terms, arbitrary values, factor and times, every executor"),
    E("c24_long_source", "a chain of 300 cells with 48 further internal and 300 boundary faces; two values of each quantity arbitrary, the others given", reach=["explicit", "implicit"], jobs=4),
    E("c24_long_ddt", "a chain of 300 cells with 48 further internal and 300 boundary faces; two values of each quantity arbitrary, the others given", reach=["explicit", "implicit"], jobs=4),
], sources=MESH)
check("C25", ["C25_solve.cpp"], [
    E("c25_steady", "1..2 (3) cells, 0..2 (3) terms of any kind, arbitrary contributions, volumes and answers, every executor", reach=["end", "refused"]),
    E("c25_forward", "1..2 cells, 0..2 explicit terms that depend on the field, two steps of any size, every executor"),
    E("c25_backward", "1..2 (3) cells, 0..2 terms of any kind, two steps of any size, arbitrary answers, every executor"),
    E("c25_long_steady", "a chain of 300 cells with 48 further internal and 300 boundary faces; 0..1 terms, one step; two values of each quantity arbitrary, the others given", jobs=2, reach=["end", "refused"]),
    E("c25_long_forward", "a chain of 300 cells with 48 further internal and 300 boundary faces; 0..1 terms, one step; two values of each quantity arbitrary, the others given", jobs=2),
    E("c25_long_backward", "a chain of 300 cells with 48 further internal and 300 boundary faces; 0..1 terms, one step; two values of each quantity arbitrary, the others given", jobs=2),
    E("c25_refuse", "every executor", reach=["copied"]),
    E("c25_many", "1, 5, 17 and 33 terms of either kind, two of arbitrary value, an arbitrary scheme, every executor"),
    E("c25_assemble", "2 cells, 0..2 terms of any kind with or without a rate, arbitrary contributions and step, every executor", reach=["end", "refused"]),
    E("c25_system", "1..2 (3) cells, arbitrary entries, fields, reference cells and values, every executor", reach=["residual", "reference", "solved", "refused"]),
], sources=MESH, probes={"C25_solve.cpp": "a use of assembled expressions"})
check("C36", ["C36_transport.cpp"], [
    E("c36_forward", "1..2 cells, 1 internal and 0..1 (2) boundary faces, fixed value or gradient, each of flow, diffusion and source alone and all of them (every subset), both schemes, arbitrary numbers, every executor", jobs=3),
    E("c36_backward", "1..2 cells, 1 internal and 0..1 (2) boundary faces, fixed value or gradient, every subset of flow, diffusion, implicit and explicit source, arbitrary numbers, every executor", jobs=3),
    E("c36_conserved", "2..3 cells (implicit and upwind: 2 (3)), 1..2 internal faces, both schemes, explicit and implicit, arbitrary numbers, every executor", jobs=2, reach=["explicit", "implicit"]),
    E("c36_diffused", "3 cells and any 2 faces, arbitrary coefficients and values, every executor and order", jobs=3),
    E("c36_bounded", "1..2 cells, 1 internal and 1..2 inflow faces, explicit and implicit, arbitrary numbers, every executor", jobs=3, reach=["explicit", "implicit"]),
    E("c36_uniform", "1..2 cells, 1 (2) internal and 0..2 boundary faces, both schemes, explicit and implicit, arbitrary numbers, every executor", jobs=2, reach=["explicit", "implicit"]),
], sources=MESH)
check("C27", ["C27_rungekutta.cpp"], [
    E("c27_steps", "2 cells, 0..2 (3) explicit terms that depend on the field, two steps of any size, every executor"),
    E("c27_reused", "2 (3) steps of one integrator, state, time and equation changed or not in between, every executor"),
    E("c27_copy", "a copy of an integrator, used or not, before or after the original, which may be gone, every executor"),
    E("c27_refuse", "every other name up to two bytes or long", reach=["refused"]),
], sources=MESH, defs=["-DNF_MODEL_SUNDIALS"])
check("C26", ["C26_fields.cpp"], [
    E("c26_register", "1..2 (3) scalar or vector fields, names up to one byte or long, arbitrary contents and indices, every executor", jobs=3),
    E("c26_refuse", "every subset of the entries of a document, every executor", reach=["complete", "refused"]),
    E("c26_copy_scalar", "registered or not, every subset of indices given, arbitrary contents, every executor"),
    E("c26_copy_vector", "the same for vectors"),
    E("c26_history", "two fields, every history of 3 (4) requests for old states of any field or old state and arbitrary writes, every executor", jobs=3),
    E("c26_missing", "every executor", reach=["refused", "ended"]),
    E("c26_invalid", "every subset of the entries of a document, every executor"),
    E("c26_records", "0..2 (3) records, texts up to one byte, every level"),
    E("c26_again", "three databases and meshes one after another in the same place, with or without old state, arbitrary contents, host executors"),
    E("c26_long", "a chain of 12 old states; 40 fields with one each; two hosts"),
], sources=MESH)
check("C29", ["C29_buffers.cpp", "C29b_threads.cpp"], [
    E("c29_layout", "1..2 (3) ranks with 0..2 elements each, every history of 2 (3 on two ranks) uses with optional new sizes, elements of 4, 8 or 24 (or 1) bytes", jobs=3),
    E("c29_long", "70 ranks with up to 8 elements or 4 with up to 300, three uses with optional new sizes, elements of 4, 8 or 24 bytes", jobs=2),
    E("c29_exchange", "1..2 (3) ranks, 0..2 (1 for three ranks) elements between each two, two rounds, every delay pattern of up to 1 (2) delays, early or late transfer", jobs=3),
    E("c29_refuse", "thirteen kinds of misuse", reach=["refused"]),
    E("c29_tag", "two arbitrary names up to one byte or long, arbitrary hash", reach=["end"]),
    E("c29_types", "every supported type"),
    E("c29_reduce", "every operation, arbitrary values, 1..3 ranks", reach=["reduced", "refused"]),
    E("c29_environment", "1..4 ranks", reach=["end", "refused"]),
    E("c29_life", "one program"),
    E("c29_threads", "every kind of thread support", reach=["end", "refused"]),
], sources=["core/mpi/*.cpp", "core/primitives/*.cpp", "core/*.cpp"], defs=["-DNF_WITH_MPI_SUPPORT", "-DNF_DEBUG"], hash_input=True)
check("C30", ["C30_communicator.cpp"], [
    E("c30_scalar", "1..2 ranks, any exchange of up to one value (two for one rank) between each two, 2 (3) cells, early or late transfer, a value written meanwhile, every executor", jobs=2),
    E("c30_vector", "the same for vectors", jobs=2),
    E("c30_int", "the same for integers", jobs=2),
    E("c30_ranks", "three ranks, any order of starting and finishing, every pattern of 1 (2) delays, early or late transfer"),
    E("c30_concurrent", "two ranks, two (three) exchanges of different types at the same time, twice, finished in any order, equal or different tags"),
    E("c30_again", "two ranks, every history of 3 (4) exchanges of any type under two names", reach=["end"]),
    E("c30_many", "nine exchanges of up to 290 values at the same time, twice, early or late transfer"),
], sources=["core/mpi/*.cpp", "core/primitives/*.cpp", "core/*.cpp", "executor/*.cpp", "mesh/unstructured/communicator.cpp"], defs=["-DNF_WITH_MPI_SUPPORT"], hash_input=True,
      probes={"C30_communicator.cpp": "an exchange of field values"})
check("C31", ["C31_conum.cpp"], [
    E("c31_mesh", "any connection of 0..2 internal and 0..1 (2) boundary faces to 1..2 (3) cells, arbitrary volumes, fluxes and step, every executor", jobs=3),
    E("c31_boundary", "two boundary faces of one or two cells, arbitrary volumes, fluxes and step, every executor"),
    E("c31_interleaved", "2 cells, 2 internal and 1 (2) boundary faces, every interleaving at atomic operations", jobs=3),
    E("c31_splits", "3 cells, 1 internal and 0 (1) boundary faces, ascending and descending order, every split of the reductions", jobs=2),
    E("c31_long", "a chain of 300 cells with 48 further internal and 300 boundary faces; two values of each quantity arbitrary, the others given", jobs=4),
], sources=MESH)
check("C32", ["C32_vector.cpp"], [
    E("c32_construct", "arbitrary components"),
    E("c32_algebra", "arbitrary vectors and numbers", reach=["equal", "different"]),
    E("c32_alias", "arbitrary vectors, every component and operation"),
    E("c32_label", "arbitrary vectors, integers -3..3"),
    E("c32_identities", "arbitrary vectors and numbers"),
    E("c32_print", "components 0, 1, -2.5"),
], sources=["core/primitives/*.cpp"])
check("C28", ["C28_%s.cpp" % n for n in "09 10 11 12 13 14 15 16 16b 17 18 19 20 21 22 23 24 25 26 30 31".split()], [
    E("c09_history_int", "as in C09"),
    E("c09_construct", "as in C09"),
    E("c09_block_scalar", "as in C09", reach=["end"]),
    E("c10_range", "as in C10"),
    E("c10_arith", "as in C10"),
    E("c10_products", "as in C10"),
    E("c10_long", "fields of 256, 257 and 1100 elements, one arbitrary element, every pair of executors"),
    E("c10_equal", "as in C10", reach=["same", "different"]),
    E("c11_segments", "as in C11"),
    E("c11_offsets", "as in C11"),
    E("c11_refuse", "0..3 segments, 1..5 offsets, every executor", reach=["refused", "end"]),
    E("c11_long", "256, 300 and 1100 segments, one of 0, 256 or 512 values, every executor"),
    E("c11_construct", "as in C11"),
    E("c12_mesh", "as in C12"),
    E("c12_fields_scalar", "as in C12"),
    E("c13_uniform", "as in C13"),
    E("c13_single", "as in C13"),
    E("c14_any", "as in C14"),
    E("c15_any", "as in C15"),
    E("c15_cached", "as in C15"),
    E("c16_copy_scalar", "as in C16"),
    E("c16_spmv", "as in C16"),
    E("c16_convert_system", "as in C16"),
    E("c17_weights", "as in C17"),
    E("c17_delta", "as in C17"),
    E("c18_linear_vector", "as in C18"),
    E("c18_upwind_scalar", "as in C18"),
    E("c19_integrate_vector", "as in C19"),
    E("c19_linear_scalar", "as in C19"),
    E("c19_upwind_vector", "as in C19"),
    E("c20_vector", "as in C20"),
    E("c21_normal_vector", "as in C21"),
    E("c21_gauss", "as in C21"),
    E("c22_exp_vector", "as in C22"),
    E("c22_imp_vector", "as in C22"),
    E("c23_volume_vector", "as in C23"),
    E("c23_surface_scalar", "as in C23"),
    E("c24_coeff", "as in C24", reach=["refused", "field", "number"]),
    E("c24_expression", "as in C24"),
    E("c24_source_vector", "as in C24", reach=["explicit", "implicit"]),
    E("c24_ddt_scalar", "as in C24", reach=["explicit", "implicit"]),
    E("c24_make", "as in C24"),
    E("c25_steady", "as in C25"),
    E("c25_forward", "as in C25"),
    E("c25_backward", "as in C25"),
    E("c25_assemble", "as in C25"),
    E("c25_system", "as in C25", reach=["residual", "reference", "solved", "refused"]),
    E("c26_copy_vector", "as in C26"),
    E("c30_vector", "as in C30"),
    E("c31_mesh", "as in C31"),
], sources=MESH + ["core/mpi/*.cpp", "mesh/unstructured/communicator.cpp"], defs=["-DNF_GPU_ONLY", "-DNF_WITH_MPI_SUPPORT"], memspace=True)
check("C34", ["C34_petsc.cpp"], [
    E("c34_symmetric", "one or two systems of 1..2 (3) rows with symmetric matrices of any pattern, entries in any order in a row, arbitrary values, every executor", jobs=3),
    E("c34_any", "1..2 (3) rows with up to 2 entries each at any columns, arbitrary values, every executor", jobs=3),
    E("c34_orientation", "2 rows with up to 2 entries each, arbitrary values, every executor", jobs=2),
], sources=FIELDS + ["core/*.cpp", "core/primitives/*.cpp", "linearAlgebra/*.cpp"], defs=["-DNF_WITH_PETSC=1"], memspace=True)
check("C35", ["C35_ginkgo.cpp"], [
    E("c35_config", "0..2 (3) entries of any type (also unsupported ones), nested once, arbitrary values, texts up to one byte or long", reach=["end", "refused"], jobs=3),
    E("c35_solve", "one or two systems of 1..2 (3) rows with up to 2 entries each at any columns, arbitrary values, every executor", jobs=3),
], sources=FIELDS + ["core/*.cpp", "core/primitives/*.cpp", "linearAlgebra/*.cpp"], defs=["-DNF_WITH_GINKGO=1", "-DKOKKOS_ENABLE_CUDA"], memspace=True)
