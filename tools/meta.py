#!/usr/bin/env python3
"""Development helper: writes properties.jsonl and MANIFEST.json from one list, so they stay in step."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = 'src/lib/matrix/'
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe, technique, note):
    assert len(title) <= 80, title
    P.append((dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)),
              technique, note))


prop('C01', 'A sparse matrix is a plain grid of numbers under every history of changes',
     'After any sequence of setting, removing, scaling, adding, subtracting, elementwise multiplying, swapping, copying and assigning, a sparse matrix '
     'reports for every cell exactly the value the same history leaves in a plain two-dimensional array, and a cell that was set to zero or removed counts as absent. '
     'Its counts of entries (in total, per row, per column), emptiness, zero, sum, trace, average, minimum and maximum reports and comparisons for equality follow from these values alone, '
     'whatever the order the entries were made in. Elementwise operations on different shapes are refused with an exception, and no operation changes an operand it only reads.',
     ['histories', 'inputs'], 'All histories of operations over several sparse matrices of any shape, with real and complex single and double precision values, including a matrix combined with itself.',
     'Tests exercise each operation once on fixed 3x3 or 4x4 matrices; the compressed storage is only stressed by long mixed histories, empty rows and removal of the last entry.',
     [M + 'SparseMatrix.h', M + 'SparseMatrix.inl'],
     [('compressed storage: values, column indices and row pointers kept consistent by insert/erase', M + 'SparseMatrix.inl: set, linear_set, erase'),
      ('elementwise operators', M + 'SparseMatrix.inl: operator+=, -=, *=')], ['at, linear_at, has, filled_count, row_filled_count, column_filled_count, sum, trace, avg, min, max, ==, !='],
     'stateful model-based property testing (sparse matrices against a plain grid)', 'Random histories of up to 20 operations on three matrices, every cell and count compared after every step.')

prop('C02', 'Walking a matrix, a row or a column visits exactly its entries, in order',
     'Iterating over a whole matrix, one row or one column (mutable or constant) visits every stored entry exactly once in row-major (for columns: top-down) order with its true row, column and value, and then ends; a dense or fixed matrix stores all cells, '
     'a sparse one the nonzero cells. Empty rows, empty columns and empty matrices are walked without a step. '
     'Writing through an iterator changes just that cell; removing through an iterator removes just that entry and yields the next one for a sparse matrix (the same position for dense and fixed ones).',
     ['inputs', 'histories'], 'All matrices of every kind and element type with any pattern of empty rows and columns; all interleavings of walking, writing and removing.',
     'Tests walk one or two fixed matrices; empty rows, columns and trailing gaps make the iterator arithmetic interesting.',
     [M + 'SparseMatrix.h', M + 'SparseMatrix.inl', M + 'DenseMatrix.h', M + 'FixedMatrix.h', M + 'BaseMatrix.h'],
     [('sparse iterators', M + 'SparseMatrix.h'), ('linear iterators of dense and fixed matrices', M + 'BaseMatrix.h')], ['begin/end, row_begin, column_begin, cbegin variants, set(iterator), erase(iterator)'],
     'property-based testing of iterators against the list of cells to visit', 'All nine walks compared with the expected list before and after random writes and removals.')

prop('C03', 'Dense and fixed matrices store, compare and combine elementwise like a grid',
     'Dense and fixed matrices hold what was written to each cell, are independent of their copies, and their sums, differences, elementwise products, negation and scaling (in operator and assigning form, also when the operand is the matrix itself) equal the cellwise results. '
     'Sum, average, trace, minimum, maximum, has-zero, has-NaN and has-infinity reports and equality describe exactly the stored cells. Operations on dynamic matrices of different shapes throw a size mismatch exception and leave the target unchanged.',
     ['inputs', 'histories'], 'All dense shapes and several fixed shapes over integer, real and complex values, all operation sequences.',
     'Tests use a handful of literal matrices.', [M + 'BaseMatrix.h', M + 'BaseMatrix.inl', M + 'DenseMatrix.h', M + 'DenseMatrix.inl', M + 'FixedMatrix.h', M + 'FixedMatrix.inl'],
     [('elementwise operators', M + 'BaseMatrix.inl'), ('containers', M + 'DenseMatrix.inl, ' + M + 'FixedMatrix.inl')], ['at, linear_at, operators, reductions'],
     'stateful model-based property testing (matrices against a plain grid)', 'Random histories with every cell compared after each step.')

prop('C04', 'Products, transpose and adjoint follow their definition for every matrix kind',
     'The product of two matrices, a matrix times a column vector, a row vector times a matrix, the transpose, the conjugate and the adjoint equal their mathematical definition for any conforming shapes and any contents, and sparse, dense and fixed matrices give the same result. '
     'Products of nonconforming shapes throw a multiplication mismatch exception. The operands are left unchanged.',
     ['inputs'], 'All conforming and nonconforming shapes, any sparsity pattern, real and complex values.',
     'Tests multiply a few literal square matrices; sparse kernels depend on the pattern of empty rows and columns.',
     [M + 'BaseMatrix.inl', M + 'SparseMatrix.inl', M + 'DenseMatrix.inl', M + 'FixedMatrix.inl'],
     [('mul, mul_left, transpose, conjugate, adjugate', M + '*.inl')], ['mul, mul_left, transpose, conjugate, adjugate'],
     'differential property testing against naive definitions and across storage kinds', 'Exactly representable random data, exact comparison with naive triple loops; all kinds against each other.')

prop('C05', 'Matrix constructors and converters produce exactly the documented matrices',
     'Matrices built from nested lists (vectors: flat lists) contain those numbers (short rows padded with zeros), and the identity, diagonal, lower and upper triangle at any offset, Hilbert and inverse Hilbert constructors yield exactly the entries of their definition in every storage kind, in particular the inverse Hilbert matrix is the inverse of the Hilbert matrix. '
     'Converting between dense, sparse and fixed matrices preserves every cell. The integer helpers behind them (binomial coefficient, factorial, alternating sign) equal their definition.',
     ['inputs'], 'All shapes, offsets, ragged list structures and element types within the exactly representable range.',
     'Tests check a few literal sizes.', [M + 'MatrixConstructor.h', M + 'MatrixConstructor.inl', M + 'MatrixConverter.h', M + 'MatrixConverter.inl', 'src/lib/Utils.h'],
     [('constructors', M + 'MatrixConstructor.inl'), ('converters', M + 'MatrixConverter.inl'), ('integer helpers', 'src/lib/Utils.h')], ['returned matrices'],
     'property-based testing against the defining formulas', 'Every cell compared with the definition.')

prop('C06', 'Matrix predicates decide exactly the property they name',
     'The checks whether a matrix is symmetric, hermitian, skew-symmetric, skew-hermitian, orthogonal, unitary or a projection answer true exactly for the matrices with that property, for every storage kind. '
     'A matrix that misses the property in one single entry is answered with false.',
     ['inputs'], 'All shapes (also non-square), random members of each class and members changed in one random entry.',
     'Tests probe each predicate with one positive and one negative literal.', [M + 'MatrixCheck.h', M + 'MatrixCheck.inl'],
     [('predicates', M + 'MatrixCheck.inl')], ['Check::matrixIs*'],
     'property-based testing with constructed members and one-entry near misses against definitional oracles', 'Exact arithmetic inputs, definitional oracle.')

prop('C07', 'Vectors and countable sets calculate like plain arrays',
     'Fixed and dynamic vectors hold what was written, their arithmetic (sum, difference, elementwise product and quotient, scaling, dot products, norms and magnitudes), reductions (sum, average, minimum, maximum, has, has-zero, has-NaN, has-infinity), slices, resizing, swapping and comparison equal those of plain arrays, for integer, real and complex elements. '
     'Operations on dynamic vectors of different size throw a size mismatch exception.',
     ['inputs', 'histories'], 'All lengths, element types and operation sequences.',
     'Tests use literal vectors of length three or four.', ['src/lib/CountableSet.h', 'src/lib/CountableSet.inl', 'src/lib/Vector.h', 'src/lib/Vector.inl'],
     [('CountableSet arithmetic', 'src/lib/CountableSet.inl'), ('Vector', 'src/lib/Vector.inl')], ['element access, operators, reductions'],
     'stateful model-based property testing (vectors against plain arrays)', 'Random histories against std::vector.')

prop('C08', 'LU decomposition factorises every regular matrix with partial pivoting',
     'For every regular square matrix the LU decomposition returns a unit lower triangular L whose entries do not exceed 1 in magnitude, an upper triangular U and a permutation P with P A = L U up to rounding, and a pivot count whose parity is the sign of the permutation. '
     'This holds whatever L, U and P contained before and for dense, sparse and fixed, real and complex matrices. A singular matrix is refused with its exception or factorised with a zero on the diagonal of U, and non-square matrices and output matrices of the wrong size are refused with an exception.',
     ['inputs'], 'All well scaled regular matrices (including ones that need row exchanges), singular matrices, non-square matrices.',
     'Tests decompose a few 3x3 or 4x4 literals.', ['src/lib/LU.h', 'src/lib/LU.inl'], [('doolittle', 'src/lib/LU.inl')], ['L, U, P, pivot count'],
     'property-based testing of the defining identities (P A = L U, shapes, parity)', 'Tolerance from backward error analysis of LU with partial pivoting.')

prop('C09', 'Solving and inverting by LU gives the solution for every regular matrix',
     'Solving a linear system by LU returns the solution of that system for dense, sparse and fixed matrices, and the inverse of a dense or sparse matrix (from the matrix, or from its LU factors with or without permutation) is its inverse, up to rounding, for every regular matrix. '
     'Singular matrices, non-square matrices and right hand sides of the wrong size are refused with an exception.',
     ['inputs'], 'All well conditioned regular matrices with real or complex entries, all right hand sides; singular and mismatching inputs.',
     'Tests solve one literal system.', ['src/lib/LU.inl', M + 'MatrixOperations.inl'], [('solve_lu', 'src/lib/LU.inl'), ('inverse', M + 'MatrixOperations.inl')], ['returned solutions and inverses'],
     'property-based testing with known solutions and residual/inverse identities', 'Systems with a known exact solution; residual bounds scaled by the condition number.')

prop('C10', 'The determinant is exact in sign and value, and zero for singular matrices',
     'The determinant of every square matrix equals the mathematical determinant up to rounding, including its sign after row exchanges, for every storage kind and for diagonal, triangular, small and general matrices, real and complex. '
     'It is zero for singular and for non-square matrices.',
     ['inputs'], 'All integer valued matrices up to moderate size whose determinant is known exactly; structured and singular matrices.',
     'Tests check a few literals.', [M + 'MatrixOperations.h', M + 'MatrixOperations.inl', 'src/lib/LU.inl'], [('determinant', M + 'MatrixOperations.inl')], ['returned value'],
     'differential property testing against exact fraction-free elimination', 'Oracle: Bareiss elimination in integer (Gaussian integer) arithmetic.')

prop('C11', 'Cholesky decomposition factorises every hermitian positive definite matrix',
     'For every symmetric (complex: hermitian) positive definite matrix the Cholesky decomposition returns a lower triangular L with positive diagonal such that L times its adjoint is the matrix, up to rounding, for every storage kind. '
     'The result does not depend on what the output held before, the input is not changed, and matrices that are not square or not positive definite (with NS_ALLOW_CHECKS defined also not hermitian) and outputs of the wrong size are refused with their exception.',
     ['inputs'], 'All hermitian positive definite matrices built from random factors.', 'Tests use one or two real literals.', [M + 'MatrixOperations.inl', 'src/lib/LU.inl'],
     [('cholesky', 'src/lib/LU.inl')], ['returned factor'], 'property-based testing (factor recovery: the generating factor is unique)', 'The factor that generated the matrix is unique and compared directly.')

prop('C12', 'Incomplete LU keeps the pattern, matches the matrix on it, and inverts',
     'The incomplete LU factorisation without fill-in of a square matrix yields a unit lower and an upper triangular factor whose product equals the matrix at every entry that is not zero there, and which are zero wherever the matrix is zero. '
     'The inverses computed from a unit lower and an upper triangular factor are the inverses of these factors. A vanishing pivot and matrices that are not square or do not fit are refused with an exception.',
     ['inputs'], 'All sparse diagonally dominant matrices with arbitrary pattern, all triangular factors (dense, sparse, fixed).', 'Tests check one literal.', ['src/lib/LU.inl', 'src/lib/LU.h'], [('ilu0, ainv_lu', 'src/lib/LU.inl')], ['returned factors'],
     'property-based testing of the defining identity on the pattern', 'Identity checked on every entry of the pattern.')

prop('C13', 'Jacobi and SOR iterations return the solution where they converge',
     'For every system on which the method provably converges (diagonally dominant; for SOR, which needs real or complex<double> numbers, any relaxation within (0,1], or (0,2) for hermitian positive definite matrices) the returned vector solves the system to the requested accuracy, independent of the start vector and the storage kind, within the iteration limit. '
     'A zero on the diagonal is refused with its exception, as are non-square matrices and vectors of the wrong size; the iteration count is reported and bounded by the limit, and a start at the solution is kept.',
     ['inputs', 'configurations'], 'All diagonally dominant systems, start vectors, relaxation parameters, iteration limits.', 'Tests use one literal system.', ['src/lib/Iterative.h', 'src/lib/Iterative.inl'],
     [('jacobi, sor', 'src/lib/Iterative.inl')], ['returned vector, iteration count'], 'differential property testing against a reference iteration and the known solution', 'Known exact solutions; single sweeps compared with a reference sweep.')

prop('C14', 'Conjugate gradients return the solution for every positive definite system',
     'For every symmetric positive definite system the conjugate gradient method, plain or preconditioned with a diagonal or other positive definite preconditioner, returns the solution to the requested accuracy from any start vector, in about as many steps as there are unknowns, and reports its number of steps. '
     'Starting at the solution returns it at once; systems of mismatching sizes, and with NS_ALLOW_CHECKS defined matrices that are not symmetric, are refused with an exception.',
     ['inputs', 'configurations'], 'All well conditioned SPD systems, start vectors and preconditioners.', 'Tests use one literal system.', ['src/lib/CG.h', 'src/lib/CG.inl'],
     [('cg, pcg, preconditioners', 'src/lib/CG.inl')], ['returned vector, step count'], 'property-based testing with known solutions and n-step termination', 'Known exact solutions, step bounds.')

prop('C15', 'Reordering yields a valid permutation and applies it faithfully',
     'The Cuthill-McKee ordering of any square matrix with symmetric pattern, connected or not, is a permutation of all indices that numbers one component after the other breadth first, from a vertex of lowest degree, neighbours by increasing degree; the reverse ordering is its reverse. '
     'Applying a permutation to a matrix or a vector and then the inverse permutation restores it, the permutation matrix performs the same reordering by multiplication, so that a reordered system has the reordered solution. Matrices that are not square and permutations of the wrong size are refused with an exception.',
     ['inputs'], 'All symmetric patterns (disconnected, with isolated vertices, without diagonal), all permutations.', 'Tests use one literal graph.', [M + 'MatrixOrder.h', M + 'MatrixOrder.inl'],
     [('cuthill_mckee, permutate, inverse_permutation, permutation_matrix', M + 'MatrixOrder.inl')], ['returned permutation, matrices'], 'property-based testing on random graphs with validity and breadth-first oracles', 'Validity predicate rather than one expected ordering.')

prop('C16', 'Triangle geometry is right for every triangle and survives rigid motion',
     'For every non-degenerate triangle the area, determinant (orientation), diameter, centre and radius of the circumscribed circle, face centres, outward unit face normals, gradients of the barycentric coordinates, transformation matrix and its inverse, and the conversion between local and global coordinates fulfil their geometric definition: vertices map to unit coordinates and back. '
     'Moving, turning, scaling or relabelling the triangle changes these quantities accordingly. The normal of K-1 vectors in K dimensions is the unit vector orthogonal to all of them, with the sign of the generalised cross product.',
     ['inputs'], 'All triangles of reasonable shape at any position, scale and orientation; all points; normals in 2 to 5 dimensions.', 'Tests use the unit triangle and one other.',
     ['src/lib/Simplex.h', 'src/lib/Simplex.inl', 'src/lib/Normal.h'], [('Simplex', 'src/lib/Simplex.inl'), ('normal', 'src/lib/Normal.h')], ['volume, determinant, center, outerRadius, diameter, gradient, faceCenter, faceNormal, toLocal, toGlobal, matrix, inverseMatrix, normal'],
     'property-based testing with geometric identities and metamorphic motions', 'Definitional oracles with condition dependent tolerances.')

prop('C17', 'Quadrature rules integrate polynomials up to their order exactly',
     'Every Gauss-Legendre rule on the line and the triangle has points inside the domain and integrates every polynomial up to its guaranteed degree exactly, up to rounding, also after mapping to an arbitrary interval or triangle. '
     'The degrees are 1, 3, 5 on the line and 1, 2, 3 on the triangle for orders 1 to 3; the weights sum to the size of the unit simplex, and evaluating from a later start point or by index sums exactly the points it names.',
     ['inputs', 'configurations'], 'All orders and all polynomials up to the guaranteed degree.', 'Tests integrate one or two monomials.', ['src/lib/quadrature/Quadrature.h', 'src/lib/quadrature/Quadrature.inl', 'src/lib/quadrature/GaussLegendreQuadratureFactory.inl'],
     [('rule tables', 'src/lib/quadrature/GaussLegendreQuadratureFactory.inl'), ('evaluation', 'src/lib/quadrature/Quadrature.inl')], ['evaluated integrals'], 'property-based testing with random polynomials against exact integrals', 'Exact integrals from closed forms.')

prop('C18', 'Shape functions are nodal, sum to one, and their gradients are derivatives',
     'For every supported dimension and order each shape function is one at its own node and zero at the other nodes, the functions sum to one everywhere, and they reproduce every polynomial of their order. '
     'Gradients and second derivatives are the derivatives of the values, with and without nodal weights, and the weighted overloads are linear in the weights.',
     ['inputs', 'configurations'], 'All supported (dimension, order) pairs and all points of the element.', 'Tests evaluate a few points of linear elements.', ['src/lib/sf/PolyShapeFunction.h', 'src/lib/sf/PolyShapeFunction.inl'],
     [('shape functions', 'src/lib/sf/PolyShapeFunction.inl')], ['value, gradient, gradient2'], 'property-based testing with interpolation identities and exact derivatives', 'Low degree polynomials: derivative oracles by exact interpolation.')

prop('C19', 'Prepared meshes know neighbours and boundaries exactly',
     'After preparation of any conforming triangle mesh, an element lists as neighbour across an edge exactly the element sharing that edge, edges without a second element and their vertices are boundary and no others, and every element can be reached with its vertices in the order given. '
     'A mesh in which three elements share an edge is refused with its exception, and validation accepts every consistent mesh and refuses, with the matching exception, vertices with a wrong index, without element or listing an element that does not contain them, and elements with a missing vertex, with other coordinates than their vertices, without area or without neighbours.',
     ['inputs', 'histories'], 'All triangle complexes: random subsets of grids, fans, strips, several components, holes, any numbering and orientation.', 'Tests use two or three elements.', ['src/lib/mesh/Mesh.h', 'src/lib/mesh/Mesh.inl'],
     [('prepare, setupNeighbors, validate', 'src/lib/mesh/Mesh.inl')], ['Neighbors, boundary flags, validate()'], 'property-based testing against a brute force edge table', 'Random complexes, edge table oracle.')

prop('C20', 'A generated hyper cube grid has the requested geometry and covers the domain',
     'For every number of cells per axis and every positive extent the generated grid has the expected number of vertices and elements, vertices at the lattice points, elements that tile the rectangle without gap or overlap, and boundary flags exactly at the border. '
     'The result is a valid mesh with neighbours whose total area is the area of the rectangle; a count of zero is refused with its exception.',
     ['inputs', 'configurations'], 'All axis counts (equal or not), extents and offsets.', 'Tests use one or two fixed sizes.', ['src/lib/mesh/HyperCube.h', 'src/lib/mesh/HyperCube.inl'],
     [('generate', 'src/lib/mesh/HyperCube.inl')], ['vertices, elements, boundary'], 'property-based testing of geometric tiling invariants', 'Random counts and extents.')

prop('C21', 'Mesh copies, moves, assignments and clears keep data and never corrupt memory',
     'Through any sequence of building, copying, moving, assigning (also to itself), clearing and destroying meshes, every mesh that is still in use reports exactly its vertices, elements and neighbourhood; copies refer to one common mesh. '
     'No memory is used after release, released twice or read uninitialised, and the data of a mesh is released when its last owner is gone.',
     ['histories'], 'All sequences of mesh lifecycle operations over several meshes.', 'Tests never copy, move or clear meshes.', ['src/lib/mesh/Mesh.h', 'src/lib/mesh/Mesh.inl'],
     [('shared mesh data, clear, assignment', 'src/lib/mesh/Mesh.inl')], ['vertex and element access'], 'stateful model-based property testing under AddressSanitizer', 'Random histories against a model of shared meshes; memory errors by ASan.')

prop('C22', 'Degrees of freedom are numbered without gaps and shared exactly at common parts',
     'Preparing a mesh for linear or quadratic elements gives every vertex one global degree of freedom, for quadratic elements also every edge exactly one, shared by both adjacent elements, numbered contiguously from zero without gaps or duplicates (vertices first); a new one is marked as implicit, and as boundary exactly on edges of the border. '
     'Local and global numbers agree in the documented order in every element, and midpoints lie in the middle of their edge.',
     ['inputs', 'configurations'], 'All triangle meshes and both orders.', 'Tests look at one or two elements.', ['src/lib/mesh/Mesh.inl', 'src/lib/sf/PolyShapeFunction.inl'],
     [('prepareMesh', 'src/lib/sf/PolyShapeFunction.inl')], ['DOF vertices, global indices'], 'property-based testing against an independent numbering oracle', 'Random meshes.')

prop('C23', 'Triangle files load to the described mesh or are rejected, never crash',
     'Every well formed pair of node and element files (0- or 1-based, comments, blank space, markers, attributes) loads to exactly the described vertices and elements, in order, with neighbours; comments and surplus fields are ignored. '
     'Files with unreadable or missing numbers, the wrong dimension or number of corners, no entries, gaps in the numbering or vertices that do not exist are refused with the loader exception of the file, as are files that are missing or empty; three elements at an edge are refused with the exception of the mesh; no text leads to a crash, hang, exhausted memory, out of bounds access or inconsistent mesh.',
     ['inputs', 'fault_sequences'], 'All well formed files and all byte level corruptions of them.', 'The loader has no test.', ['src/lib/loader/MeshTriangleLoader.h', 'src/lib/loader/MeshTriangleLoader.inl'],
     [('parser', 'src/lib/loader/MeshTriangleLoader.inl')], ['loaded mesh, exceptions'], 'grammar based generation with round trip oracle, plus mutation fuzzing under sanitizers', 'Round trip for valid files; sanitizers and clean refusal for corrupt ones.')

prop('C24', 'OBJ files load to the described triangles or are rejected, never crash',
     'Every well formed OBJ text (vertices, faces with any index style, relative indices, polygons, comments, groups, materials) loads to the triangles its first group with faces describes, in order, at the right coordinates (polygons as fan), sharing the vertices the faces share and without vertices nobody uses. '
     'Faces with vertices that do not exist and groups without triangles are refused with the loader exception; any garbled text is refused with an exception or loads to a consistent mesh, without crash, hang or out of bounds access.',
     ['inputs', 'fault_sequences'], 'All well formed OBJ texts of the supported subset and all corruptions of them.', 'Tests load one sphere.', ['src/objloader/loader/MeshObjLoader.cpp', 'src/objloader/loader/MeshObjLoader.inl', 'src/objloader/external/tiny_obj_loader.h'],
     [('parser', 'src/objloader/external/tiny_obj_loader.h'), ('mesh construction', 'src/objloader/loader/MeshObjLoader.inl')], ['loaded mesh, exceptions'], 'grammar based generation with round trip oracle, plus mutation fuzzing under sanitizers', 'Round trip for valid text; sanitizers for corrupt text.')

prop('C25', 'VTK export writes a readable file with exactly the mesh and its data',
     'The exported file is well formed and contains every vertex, every element with its vertices in order and every attached point and cell data set with the values given, to the precision of the number format the file declares, whatever the names of the data sets are. '
     'This holds for any mesh prepared for linear or quadratic elements and any selection of data sets and options.',
     ['inputs', 'configurations'], 'All meshes, data sets and exporter options.', 'The exporter has no test.', ['src/lib/export/VTKExporter.h', 'src/lib/export/VTKExporter.inl'],
     [('writer', 'src/lib/export/VTKExporter.inl')], ['written file'], 'round trip property testing with an independent parser', 'Written files are parsed back.')

prop('C26', 'The finite element and difference pipelines solve the model problems',
     'Assembling the Poisson problem from mesh, elements and quadrature and solving it with any of the solvers reproduces solutions of the degree of the elements exactly on every mesh and converges to smooth ones with the order of the elements; '
     'stiffness matrices are symmetric, know constants and the energy. The difference assemblies of the examples (Poisson and heat) give the solution of their discrete problem. '
     'The program poisson_fem writes a solution of its discretised problem for all its arguments.',
     ['inputs', 'configurations'], 'All meshes, linear (quadratic) exact solutions, solvers, program arguments.', 'No test runs a pipeline as a whole.', ['examples/poisson/fem.cpp', 'examples/poisson/fdm.cpp', 'examples/heat/main.cpp', 'src/lib/mesh/Mesh.inl', 'src/lib/sf/PolyShapeFunction.inl', 'src/lib/CG.inl'],
     [('assembly, boundary conditions, solver', 'examples/poisson/fem.cpp')], ['solution files'], 'patch test property and convergence checks on generated meshes and parameters', 'Exact patch test; convergence bounds; the program is run on generated arguments and mesh files.')

prop('C27', 'Printing a vector or matrix shows exactly its entries in a readable form',
     'The text written for a vector, matrix or sparse matrix contains all its entries (for a sparse matrix the stored ones with row and column) in order and in the documented layout, so that the values can be read back. '
     'Stream state such as precision set by the caller is respected.',
     ['inputs'], 'All shapes and values of every kind.', 'Tests never check the printed text.', ['src/lib/OutputStream.h'], [('operator<<', 'src/lib/OutputStream.h')], ['written text'],
     'round trip property testing (print, parse, compare)', 'Independent parser of the printed text.')

prop('C28', 'Results depend on the arguments only, also when several threads compute',
     'Every function, constructor, loader and writer of the library gives the same result each time it is called with equal arguments: whatever was computed, refused or thrown before, whatever fresh memory happens to hold '
     '(new objects have defined values) and whatever other threads compute with their own objects at the same time. Functions on constant objects (matrices, vectors, factors, meshes, elements, rules, shape functions) do not change them, '
     'so several threads may read one object at once without a data race.',
     ['histories', 'schedules', 'inputs'], 'All pairs and histories of calls, all schedules of threads that share at most constant objects (copies of one mesh stay in one thread).',
     'Tests run one call after the other in one thread and never the same call twice; a hidden cache, a static buffer or an uninitialised member stays unseen.',
     ['src/lib/matrix/SparseMatrix.inl', 'src/lib/LU.inl', 'src/lib/CG.inl', 'src/lib/Iterative.inl', 'src/lib/matrix/MatrixOrder.inl', 'src/lib/quadrature/GaussLegendreQuadratureFactory.inl', 'src/lib/sf/PolyShapeFunction.inl', 'src/lib/mesh/Mesh.inl',
      'src/lib/loader/MeshTriangleLoader.inl', 'src/lib/export/VTKExporter.inl', 'src/objloader/loader/MeshObjLoader.inl'],
     [('no static or mutable state behind functions and constant members', 'src/lib/**/*.inl'), ('constructors set every member', 'src/lib/mesh/Mesh.inl, src/lib/Simplex.inl')],
     ['returned values, bit by bit', 'reports of the thread sanitizer'],
     'metamorphic property testing of generated plans (repeated, reordered and concurrent execution under the thread sanitizer)', 'Every plan runs concurrently and twice sequentially with other memory contents; results are equal bit by bit.')


def main():
    with open(HERE + '/properties.jsonl', 'w') as f:
        for p, _, _ in P:
            f.write(json.dumps(p) + '\n')
    have = lambda i: os.path.isdir(HERE + '/harness/' + i)
    checks = [dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                   technique=t, level='exploration', level_note=n + ' Generated-input search, so absence of violations is not proved; trusts g++, the sanitizers and the reference model in harness/.')
              for p, t, n in P if have(p['id'])]
    man = dict(version=1, setup_cmd='python3 -c "import props" && g++ --version', checks=checks,
               not_applicable=[dict(property=p['id'], reason='Harness not built yet.') for p, _, _ in P if not have(p['id'])],
               notes='No hooks: all checks use the public interface. Every check compiles its harness against /repo/src at run time.')
    with open(HERE + '/MANIFEST.json', 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
