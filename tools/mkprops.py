#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,text,why,files,mech,over=("inputs",),state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":list(over),"text":text},"why_tests_cant":why,"anchors":a})

LAY="every shape (including 0xN, Nx0 and 0x0), every index type whose range holds the dimensions and entry counts, every scalar type, and every storage layout: sorted or unsorted, with or without duplicate entries, explicit zeros, empty rows/columns"
FIX="The suite uses one fixed 4x4 canonical matrix with 8 entries (usize/f64)"

p("C01","Conversion between formats preserves the matrix",
  "Converting a matrix between any of the supported representations (triplet, compressed-row, compressed-column, dictionary, dense), in any chain, yields a matrix of the same shape in which every element equals the sum of the entries stored for that position in the source. Conversion from triplets to a compressed form sums duplicates into one entry per position; conversion from a compressed form to triplets or to the other compressed form carries over every stored entry, duplicates and explicit zeros included. Expanding stored data into dense arrays (row- or column-major, adding to what the output already holds) obeys the same rule.",
  "all matrices: "+LAY+"; all scalar values including infinities and NaN",
  FIX+" for csr/coo conversions; csc and dok have no tests at all, and no test has empty rows, unsorted input, a non-square shape or another index type.",
  ["src/coo/coo.rs","src/csr/csr.rs","src/csc/csc.rs","src/dok/dok.rs","src/coord.rs","src/row.rs","src/col.rs"],
  [("counting sort of triplets into a compressed form","src/coord.rs coo_tocsr"),("compressed transpose/relayout","src/row.rs csr_tocsc"),("pointer expansion","src/row.rs expandptr, csr_tocoo"),("duplicate summing on conversion","src/coo/coo.rs to_csr/to_csc")],
  over=("inputs","configurations"))

p("C02","Every matrix an operation returns is well-formed",
  "Every compressed matrix returned by a constructor, conversion or operation on valid input has a pointer array of major-dimension+1 entries that starts at 0, never decreases and ends at the reported entry count; holds exactly that many indices and values; and every index lies inside the reported shape. Every returned triplet matrix holds equally many row indices, column indices and values, all inside its shape.",
  "all operations over "+LAY+", including results where entries cancel",
  "Tests check entry values at a few positions of one matrix; none examines the arrays of results in which entries cancel, rows are empty, or the input arrays carry spare capacity.",
  ["src/csr/csr.rs","src/csc/csc.rs","src/coo/coo.rs","src/csr/std_ops.rs","src/csc/std_ops.rs","src/row.rs"],
  [("length checks in constructors","src/csr/csr.rs new, src/csc/csc.rs new, src/coo/coo.rs new"),("pruning","src/csr/csr.rs prune, src/csc/csc.rs prune")],
  over=("inputs","programs"))

p("C03","Canonicalisation keeps the matrix and format predicates are exact",
  "The sortedness predicate is true exactly when indices never decrease within any row (column, for compressed-column), and the canonical predicate exactly when they strictly increase. Sorting indices keeps each row's (column's) stored entries and leaves entries with equal index in their relative order; summing duplicates yields a canonical matrix with the same element values and exactly one entry per distinct stored position, explicit zeros retained. Both are idempotent and leave already sorted or canonical matrices unchanged.",
  "all compressed-row and compressed-column matrices: "+LAY,
  "Tests swap a single pair in one fixed matrix; duplicates appear in one test where every entry is doubled; empty rows never occur.",
  ["src/csr/csr.rs","src/csc/csc.rs","src/row.rs"],
  [("predicates","src/row.rs csr_has_sorted_indices, csr_has_canonical_format"),("sorting and summing","src/row.rs csr_sort_indices, csr_sum_duplicates")])

p("C04","Matrix addition and subtraction equal the element-wise result",
  "For two matrices of equal shape, addition and subtraction in every form offered (operators on owned and borrowed triplet, compressed-row and compressed-column operands, and the named methods) return a matrix of that shape whose every element is the sum or difference of the operands' elements. This holds whatever the operands' storage order and duplicates, and an addition or subtraction of compressed operands stores no zero and no position twice.",
  "all pairs of equal shape: "+LAY+", overlapping, disjoint, cancelling and identical patterns",
  "One test adds a fixed matrix to its transpose in triplet form; the compressed-column forms and subtraction have no test.",
  ["src/csr/std_ops.rs","src/csc/std_ops.rs","src/csc/csc.rs","src/coo/std_ops.rs","src/row.rs"],
  [("merge of two rows","src/row.rs csr_binop_csr_canonical"),("scatter/gather for non-canonical rows","src/row.rs csr_binop_csr_general")])

p("C05","Element-wise kernels agree with the scalar operator",
  "For two compressed matrices of equal shape, each element-wise kernel (!=, ==, <, <=, >, >=, *, /, +, -, max, min, or a caller-supplied operator) stores, for exactly those positions held by at least one operand where the operator's result is non-zero (true), that result computed from the operands' elements (duplicates summed, absent = 0), once each. The choice between the merge and the general algorithm never changes the result, and canonical operands give a canonical result.",
  "all operand pairs: "+LAY+"; all operators",
  "No test calls any of these kernels directly; only + is reached, on one matrix.",
  ["src/row.rs"],
  [("algorithm choice","src/row.rs csr_binop_csr"),("merge","src/row.rs csr_binop_csr_canonical"),("general","src/row.rs csr_binop_csr_general")])

p("C06","Matrix product equals the mathematical product",
  "For compatible shapes, the product of two sparse matrices (compressed-row, compressed-column or mixed operands, methods, operators on owned and borrowed operands, and the low-level kernels) has shape rows(A) x cols(B) and every element equals the sum over k of A[i,k]*B[k,j]. The product stores each position at most once and never stores a zero, and the advance entry-count is exactly the number of positions reachable through stored entries, an upper bound on the stored result.",
  "all compatible pairs: "+LAY+", cancelling sums included",
  "One product of a fixed 4x4 matrix is tested for compressed-row only.",
  ["src/csr/csr.rs","src/csc/csc.rs","src/csr/std_ops.rs","src/csc/std_ops.rs","src/row.rs","src/col.rs"],
  [("two-pass SMMP product","src/row.rs csr_matmat_maxnnz, csr_matmat"),("column form through transposition","src/col.rs csc_matmat")])

p("C07","Matrix-vector products equal the mathematical product",
  "Multiplying a sparse matrix of any format by a dense vector of length cols yields the vector of length rows whose i-th element is the sum over stored entries of value times vector element. The low-level single- and multi-vector kernels add that product to whatever the output already holds, for any number of vectors, in row-major block layout.",
  "all matrices ("+LAY+"), all vectors, 0 or more simultaneous vectors, any initial output",
  "One fixed product with zero-initialised output is tested; multi-vector and column kernels are not.",
  ["src/csr/csr.rs","src/csc/csc.rs","src/row.rs","src/col.rs","src/coord.rs","src/util.rs"],
  [("row kernel","src/row.rs csr_matvec, csr_matvecs"),("column kernel","src/col.rs csc_matvec, csc_matvecs"),("triplet kernel","src/coord.rs coo_matvec")])

p("C08","Scaling and negation act on every element and nothing else",
  "Multiplying a matrix by a scalar (from the right, or a complex scalar from the left, owned or borrowed) and negating it multiply every element by the scalar or by -1 and keep shape and stored positions. Row and column scaling multiply element (i,j) by the i-th or j-th factor respectively, in place, and writing through the mutable value view changes exactly the written entries.",
  "all matrices ("+LAY+"), all scalars including 0, all factor vectors",
  "No test covers scalar multiplication, negation or row/column scaling.",
  ["src/csr/std_ops.rs","src/csc/std_ops.rs","src/coo/std_ops.rs","src/row.rs"],
  [("operators","src/csr/std_ops.rs mul, neg; src/csc/std_ops.rs mul, neg; src/coo/std_ops.rs neg"),("scaling kernels","src/row.rs csr_scale_rows, csr_scale_columns")])

p("C09","Transposition mirrors every element and is an involution",
  "Transposing a matrix in any format, consuming or copying, yields a matrix of swapped shape whose (j,i) element is the source's (i,j) element, keeping the number of stored entries. Transposing twice gives back the original, and the transpose of a product or sum is the (reversed) product or the sum of the transposes.",
  "all matrices: "+LAY,
  "Square symmetric-shape 4x4 input only, so swapped dimensions cannot be noticed.",
  ["src/csr/csr.rs","src/csc/csc.rs","src/coo/coo.rs"],
  [("reinterpretation of compressed arrays","src/csr/csr.rs transpose/t, src/csc/csc.rs transpose/t"),("index swap","src/coo/coo.rs transpose/t")])

p("C10","Selection returns exactly the requested rows and columns",
  "Selecting a list of rows and/or columns (in any order, with repeats; an omitted list means all) from a canonical compressed matrix returns the matrix of size list-length by list-length whose (p,q) element is the source's (rows[p], cols[q]) element, itself in canonical form. An index outside the shape, or a source that is not canonical, is reported as an error.",
  "all canonical compressed-row and compressed-column matrices and all index lists (empty, repeated, unordered, out of range)",
  "One test selects from the fixed 4x4 compressed-row matrix.",
  ["src/csr/csr.rs","src/csc/csc.rs","src/row.rs"],
  [("selection","src/row.rs csr_select"),("validation","src/csr/csr.rs select, src/csc/csc.rs select")])

p("C11","Slicing kernels extract exactly the requested part",
  "Sub-matrix extraction over half-open row and column ranges, row gathering by index list or by start/stop/positive step, and two-pass column gathering by index list produce exactly the stored entries of the requested rows and columns (repeats repeated), with indices renumbered to the result's columns where the columns change and the per-row order of source entries otherwise kept.",
  "all compressed matrices ("+LAY+"), all ranges, steps and index lists",
  "None of these public kernels is called by any test.",
  ["src/row.rs"],
  [("sub-matrix","src/row.rs get_csr_submatrix"),("rows","src/row.rs csr_row_index, csr_row_slice"),("columns","src/row.rs csr_column_index1, csr_column_index2")])

p("C12","Diagonals are extracted and built exactly",
  "The main diagonal of a matrix in any format is the vector of length min(rows, cols) of its (i,i) elements with duplicates summed, and the k-th diagonal kernels return the elements (i,i+k) for every k, writing nothing where that diagonal lies outside the matrix. Matrices built from a diagonal, or as an identity, hold exactly those values at (i,i) and zero elsewhere, and the occupied-diagonal count is the number of distinct column-minus-row offsets among stored entries.",
  "all matrices ("+LAY+"), every offset k",
  FIX+"; its main diagonal is full; no test has a rectangular matrix, a duplicate on the diagonal or k != 0.",
  ["src/row.rs","src/col.rs","src/coo/coo.rs","src/csr/csr.rs","src/csc/csc.rs"],
  [("k-th diagonal","src/row.rs csr_diagonal, src/col.rs csc_diagonal"),("triplet diagonal","src/coo/coo.rs diagonal"),("count","src/row.rs csr_count_diagonals")])

p("C13","Stacking and block composition place every block exactly",
  "Stacking two or three matrices vertically or horizontally, or composing a 2x2 or 3x3 grid of blocks, yields the matrix of combined shape in which each block occupies its own row and column range with its elements unchanged. Blocks whose adjoining dimensions differ are reported as an error.",
  "all block grids with matching or mismatching dimensions, including empty and zero-sized blocks of differing sizes: "+LAY,
  "Two copies of the same 4x4 matrix are stacked; unequal block sizes, 3-block forms, grids and mismatches are not tested.",
  ["src/coo/coo.rs","src/csr/csr.rs","src/csc/csc.rs"],
  [("offsets","src/coo/coo.rs v_stack, h_stack, v_stack3, h_stack3, compose, compose3"),("wrappers","src/csr/csr.rs h_stack, src/csc/csc.rs compose")])

p("C14","Dictionary matrix behaves as a map under any history",
  "After any sequence of set, add-to and subtract-from operations, reading a position of a dictionary matrix returns what those operations arithmetically leave there (0 if never written), and the entry count is the number of positions whose value is not zero. An operation outside the shape returns an error and changes nothing. Conversions taken at any point equal the state at that point.",
  "all operation histories over all shapes, index types and scalar types, with in-range and out-of-range positions",
  "The dictionary type has no tests.",
  ["src/dok/dok.rs"],
  [("bounds check and zero removal","src/dok/dok.rs set"),("read-modify-write","src/dok/dok.rs add, sub")],
  over=("histories","inputs"),
  state=[("values","map from position to non-zero value","src/dok/dok.rs DoK.values")])

p("C15","Complex parts and conjugates are exact",
  "For complex matrices of every format, conjugation conjugates every element, the real and imaginary extractions return real matrices holding the corresponding parts, the conjugate transpose equals conjugation followed by transposition, and shape is kept (swapped for the transpose). Building a complex matrix from a real one as its real or imaginary part holds exactly those parts, so real part plus i times imaginary part reproduces the matrix.",
  "all complex matrices (both precisions): "+LAY,
  "The only complex test checks the diagonal of a constructed matrix with zero imaginary parts.",
  ["src/coo/ccoo.rs","src/csr/ccsr.rs","src/csc/ccsc.rs","src/traits.rs"],
  [("complex traits","src/traits.rs Complex"),("per-format implementations","src/coo/ccoo.rs, src/csr/ccsr.rs, src/csc/ccsc.rs")])

p("C16","Undirected and weak components are the true partition",
  "For a square sparse graph, component analysis in undirected mode, or in directed mode with weak connection, labels two nodes alike exactly when a path joins them with edge directions ignored (an edge being any stored entry). Labels are 0 up to the returned count minus 1 and every one is used; a non-square matrix is reported as an error.",
  "all graphs: any size, self-loops, duplicate edges, unsorted storage, disconnected and empty graphs",
  "Three fixed graphs of at most 6 nodes are tested, two of them after sorting labels, which hides wrong assignments.",
  ["src/graph.rs"],
  [("stack-in-labels flood fill","src/graph.rs connected_components_undirected"),("mode choice","src/graph.rs connected_components")])

p("C17","Strong components are the true partition",
  "For a square directed sparse graph, strong component analysis labels two nodes alike exactly when each is reachable from the other along stored entries. Labels are 0 up to the returned count minus 1 and every one is used, for every graph including empty ones, self-loops, duplicate edges and long paths or cycles.",
  "all directed graphs, up to deep recursion-free sizes (thousands of nodes)",
  "Three fixed graphs of at most 6 nodes are tested with labels sorted, so a wrong grouping with the right sizes passes.",
  ["src/graph.rs"],
  [("iterative Pearce algorithm with shared stacks","src/graph.rs connected_components_directed")])

p("C18","Depth-first order is a genuine depth-first traversal",
  "Depth-first ordering from a start node lists that node first and then exactly the nodes reachable from it (edge directions ignored in undirected mode), each once, in an order in which every next node is an unvisited neighbour of the most recently listed node that still has one. The predecessor of each listed node other than the start is that neighbour; the start and unreachable nodes have none; a non-square matrix is reported as an error.",
  "all graphs and start nodes, directed and undirected",
  "One 4-node graph in a documentation example.",
  ["src/graph.rs"],
  [("iterative DFS","src/graph.rs depth_first_directed, depth_first_undirected")])

p("C19","Component labelling of symmetric graphs is exact",
  "For a square matrix with a symmetric pattern of stored entries, the matrix method (and the low-level routine) for connected components labels two nodes that have entries in their rows alike exactly when a path joins them, numbers components 0 up to the returned count minus 1 in order of their smallest node, and marks nodes whose row is empty with -2 without counting them. A non-square matrix is reported as an error.",
  "all structurally symmetric graphs: self-loops, duplicates, unsorted storage, isolated nodes, entirely empty graphs, every signed label type that can hold the count",
  "One fixed graph is tested.",
  ["src/graph.rs","src/csr/csr.rs"],
  [("breadth-first flagging","src/graph.rs cs_graph_components"),("wrapper","src/csr/csr.rs connected_components")])

p("C20","Inconsistent arguments are rejected, consistent ones accepted",
  "Constructors report an error when the index, pointer and value arrays do not have the lengths the shape and entry count require, and accept them when they do. Addition, subtraction, products and matrix-vector products on operands of incompatible shape are rejected (an error, or a panic from an operator) and never produce a result, while compatible operands, including empty ones, are always accepted.",
  "all combinations of matching and mismatching array lengths and operand shapes",
  "No test passes an inconsistent argument to anything.",
  ["src/csr/csr.rs","src/csc/csc.rs","src/coo/coo.rs","src/csr/std_ops.rs","src/csc/std_ops.rs","src/coo/std_ops.rs"],
  [("length checks","src/csr/csr.rs new, src/csc/csc.rs new, src/coo/coo.rs new"),("shape checks","mat_vec, mat_mat, add, subtract and operator implementations")])

p("C21","Text output shows every stored entry faithfully",
  "The listing form of a matrix contains one line \"(row, col) value\" per stored entry and nothing else. The table form of a canonical matrix has one line per row and one cell per column, a dash where nothing is stored and otherwise the value printed to at most six significant digits (real and imaginary part with their own sign for complex values).",
  "all matrices: "+LAY,
  "Text output is not asserted by any test.",
  ["src/csr/csr.rs","src/csr/table.rs","src/csc/csc.rs","src/coo/coo.rs","src/dok/dok.rs","src/traits.rs"],
  [("listing","to_string methods"),("table","src/csr/table.rs csr_table"),("number formatting","src/traits.rs pretty_string")])

p("C22","Element lookup returns the element",
  "Looking up position (i,j) inside the shape of a compressed-row or dictionary matrix returns the sum of the entries stored there, or zero when there are none, whatever the order of storage.",
  "all matrices ("+LAY+") and all positions",
  "No test calls element lookup.",
  ["src/csr/csr.rs","src/dok/dok.rs"],
  [("row scan","src/csr/csr.rs get"),("map lookup","src/dok/dok.rs get")])

p("C23","Upper-triangle extraction keeps exactly the entries on or above k",
  "Extracting the upper triangle at offset k keeps exactly the stored entries with row + k <= column, with their values, order and the matrix's shape unchanged, for positive, zero and (for signed index types) negative k of any size.",
  "all triplet matrices and every offset k representable in the index type",
  "No test calls it.",
  ["src/coo/coo.rs"],
  [("filter","src/coo/coo.rs upper")])

p("C24","Any chain of operations equals the same chain on dense matrices",
  "Starting from any matrices, applying any sequence of operations across formats (conversion, transposition, addition, subtraction, product, scaling, negation, selection, stacking, canonicalisation, element updates) gives at every step a matrix equal in shape and elements to the same operation on dense matrices. The outcome of an operation depends only on its operands' elements, not on how they were obtained or are stored.",
  "all histories of operations over a pool of matrices in all formats",
  "Tests apply one operation to freshly built canonical data and never feed a result into the next operation.",
  ["src/csr/csr.rs","src/csc/csc.rs","src/coo/coo.rs","src/dok/dok.rs","src/csr/std_ops.rs","src/csc/std_ops.rs","src/coo/std_ops.rs","src/row.rs","src/col.rs","src/coord.rs"],
  [("all operations","public methods and operators of the four matrix types")],
  over=("histories","programs"))

p("C25","Results do not depend on the index type",
  "Running the same operation on the same matrix with any two integer index types, as long as dimensions and entry counts (including those of a result before duplicate entries are merged) fit both, gives the same shape, elements and outcome, up to and including the largest value the narrower type can hold. Signedness and width never cause a failure or a different answer inside that range.",
  "all pairs of index types, with dimensions and entry counts up to and at the limit of the narrower type",
  "All tests use usize.",
  ["src/row.rs","src/col.rs","src/coord.rs","src/graph.rs","src/csr/csr.rs","src/csc/csc.rs","src/coo/coo.rs","src/dok/dok.rs","src/traits.rs"],
  [("Integer trait","src/traits.rs"),("index arithmetic in kernels","src/row.rs, src/coord.rs, src/graph.rs")],
  over=("configurations","inputs"))

p("C26","Importing dense data and eliminating zeros drop exactly the zeros",
  "Importing a dense array into any sparse format stores exactly its non-zero elements, each once, in canonical order for compressed formats, and handles arrays with no rows or no columns. Eliminating zeros from compressed data removes exactly the entries whose value equals zero, keeps every other entry (however small, infinite or NaN) in order, and updates the pointers to match.",
  "all dense arrays and all compressed matrices: "+LAY,
  "Dense import is used as a fixture for small 0/1 graphs; zero elimination is not called.",
  ["src/coo/coo.rs","src/csr/csr.rs","src/csc/csc.rs","src/dok/dok.rs","src/row.rs"],
  [("import","from_dense in each type"),("elimination","src/row.rs csr_eliminate_zeros")])

p("C27","Degenerate shapes are handled by every operation",
  "Every constructor, conversion, query and operation accepts matrices with zero rows, zero columns, or no stored entries whenever the shapes are compatible, and returns the mathematically empty or zero result without failing.",
  "all operations on all degenerate shapes (0x0, 0xN, Nx0, NxM with no entries, 1xN, Nx1) and index types",
  "Only a 4x4 triplet matrix with no entries is constructed in a test; nothing is done with it but reading its diagonal.",
  ["src/csr/csr.rs","src/csc/csc.rs","src/coo/coo.rs","src/dok/dok.rs","src/row.rs","src/graph.rs"],
  [("loop bounds and pointer arithmetic of every kernel","src/row.rs, src/col.rs, src/coord.rs, src/graph.rs")],
  over=("inputs","configurations"))

p("C28","Computed eigenpairs satisfy the eigenvalue equation",
  "With the eigenvalue feature enabled, asking for the nev (0 < nev < n-1) largest-magnitude eigenvalues of a real square matrix either reports an error (no convergence) or returns values and non-zero vectors with A*v equal to lambda*v up to rounding. For matrices with well-separated real or complex-pair spectra it succeeds and the values are the nev of largest magnitude (one more where nev would cut a complex pair). A non-square matrix or an out-of-range nev is reported as an error.",
  "all real square matrices of moderate size with a spectrum on which the iteration converges, all admissible nev",
  "The eigenvalue module has no tests.",
  ["src/eigen/real.rs"],
  [("reverse-communication loop","src/eigen/real.rs eigs"),("unpacking of complex pairs","src/eigen/real.rs eigs")])

p("C29","A triplet matrix built step by step holds exactly the entries supplied",
  "However a triplet matrix is put together (entry arrays with or without values, single entries pushed, batches appended, copies, transposes, clones), it holds exactly the entries supplied so far, in the order supplied, with its shape unchanged, and reports that many. Every later conversion, query or operation sees all of them and no others. A copy or clone and its original do not affect each other.",
  "all histories of construction and growth interleaved with queries and conversions: every shape, index type, scalar type, entry values including zeros, infinities and NaN, duplicates",
  "No test pushes to or extends a matrix that already holds entries, and none looks at a copy after its original has changed.",
  ["src/coo/coo.rs"],
  [("growth","src/coo/coo.rs push, extend"),("construction and copies","src/coo/coo.rs new, with_size, identity, with_diagonal, transpose, t, clone")],
  over=("histories","inputs"))

p("C30","Results do not depend on the scalar type",
  "Running the same operation on the same whole-number data in any two scalar types (floating-point, signed integers of any width, complex numbers with zero imaginary part) that can hold the operands, intermediate sums and results exactly gives the same shape, elements, stored pattern and outcome. No scalar type fails, loses digits or is treated specially inside its exact range.",
  "all pairs of supported signed scalar types, all operations, values up to the exact range of the narrower type",
  "All tests use f64 with small values, apart from a few complex printing cases.",
  ["src/traits.rs","src/row.rs","src/coord.rs","src/csr/csr.rs","src/csc/csc.rs","src/coo/coo.rs","src/dok/dok.rs"],
  [("Scalar trait and its implementations","src/traits.rs"),("generic kernels","src/row.rs, src/col.rs, src/coord.rs")],
  over=("configurations","inputs"))

p("C31","Sparse operations cost time and memory proportional to what is stored",
  "Every sparse-to-sparse operation, matrix-vector product, conversion between sparse formats and labelling of weakly or strongly connected components needs time and memory at most proportional (up to a logarithmic factor for sorting) to the number of rows plus columns plus stored entries of its operands and result, for a matrix product the number of elementary multiplications, and for a selection the number of requested positions. None grows with rows times columns or with the square of the entries of a row, a column, one position or the whole matrix. Excluded are operations that produce dense arrays or printed tables, depth-first search and the separate component routine for symmetric graphs.",
  "all large operands: long rows and columns, very many empty rows, heavy duplication at one position, scrambled and reversed order, star and chain graphs",
  "Every test matrix is at most a few dozen entries; nothing measures cost.",
  ["src/row.rs","src/col.rs","src/coord.rs","src/graph.rs","src/csr/csr.rs","src/csc/csc.rs","src/coo/coo.rs","src/dok/dok.rs"],
  [("linear kernels","src/row.rs csr_tocsc, csr_matmat, csr_binop_csr, csr_sort_indices, csr_sum_duplicates; src/coord.rs coo_tocsr; src/graph.rs connected_components")])

p("C32","Results obey the laws of matrix algebra",
  "Between results computed on exactly representable data, the laws of matrix algebra hold: addition commutes and associates, subtraction undoes addition, the product associates, distributes over sums and has the identity as its unit on both sides, the transpose reverses products and distributes over sums, multiplying by a vector agrees with multiplying by a one-column matrix and with applying factors one after another, scaling and negation commute with all of these. Cutting a matrix into pieces and stacking the pieces again, or splitting it into triangles and adding them, gives the matrix back.",
  "all tuples of matrices of compatible shapes, larger than a dense model can check cheaply included: every shape, storage layout, index and scalar type",
  "Tests evaluate single operations on one 4x4 matrix and compare with literals; no relation between results is tested.",
  ["src/csr/csr.rs","src/csc/csc.rs","src/coo/coo.rs","src/csr/std_ops.rs","src/csc/std_ops.rs","src/coo/std_ops.rs","src/row.rs","src/col.rs"],
  [("operators and named methods","src/csr/csr.rs, src/csr/std_ops.rs, src/csc/csc.rs, src/csc/std_ops.rs, src/coo"),("kernels","src/row.rs, src/col.rs")],
  over=("inputs","programs"))

p("C33","Results depend on the operands alone",
  "The result of an operation is determined by its operands: repeating it, after any other operations on the same or other matrices, of other shapes or types, on another thread or while other threads work, gives the identical result. No state is carried from one operation to the next or shared between threads.",
  "all interleavings of operations, sequential on one thread and concurrent on several, with equal and different operands and types",
  "Every test runs one operation once on fresh data.",
  ["src/row.rs","src/col.rs","src/coord.rs","src/graph.rs","src/csr/csr.rs","src/csc/csc.rs","src/coo/coo.rs","src/dok/dok.rs"],
  [("working arrays of every kernel","src/row.rs csr_matmat, csr_binop_csr, csr_sort_indices; src/graph.rs")],
  over=("schedules","histories"))

p("C34","Kernels act on the delimited data only",
  "The array-level kernels depend on, and alter, nothing but the part of their arguments that the given row count, entry count and pointers delimit. The same data lying at the front of longer arrays (with spare room of any content, with what an in-place merge or elimination of zeros left behind, or as the leading rows of a larger matrix) and longer output arrays with stale content give exactly the result that arrays of exact length give, and kernels leave what lies behind the delimited entries of the index and value arrays they change or fill unchanged (a conversion may clear its pointer output to the end).",
  "all kernels, all matrices and matrix pairs, all amounts and contents of spare room in inputs and outputs, all leading parts of a matrix",
  "Tests call a few kernels, always with arrays of exact length and clean outputs.",
  ["src/row.rs","src/col.rs","src/coord.rs","src/graph.rs"],
  [("loops delimited by the row count and the pointers","src/row.rs, src/col.rs"),("triplet kernels delimited by the entry count","src/coord.rs"),("in-place compaction that leaves room behind","src/row.rs csr_sum_duplicates, csr_eliminate_zeros")])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P), max(len(x["title"]) for x in P))
