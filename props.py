"""Per property: how many cases the quick tier runs (mult scales the counts in the harness),
what counts as non-trivial, and what is assumed."""
FP = 'IEEE-754 arithmetic of g++ -O1 on x86-64'
SAN = 'harness and library are built with AddressSanitizer and UndefinedBehaviorSanitizer; leaks are not judged'

PROPS = {
    'C01': dict(mult=10, rule='Histories of 1-20 operations on three sparse matrices (up to 10x9) mirrored on grids, after every operation all '
                'cells, counts and reductions of all three are compared; non-trivial: at least 3 operations and at least one entry removed or one '
                'elementwise operation. Scale factors include purely imaginary and complex ones. Plus single matrices with NaN/inf (also mixed, in either part) and large sparse matrices.',
                assumptions=[FP, SAN, 'explicit zeros written through an iterator reference are outside the domain']),
    'C02': dict(mult=24, rule='Random matrices of every kind; every walk (whole, each row, each column, const and not, pre- and postfix) is compared with '
                'the list of cells that has to be visited, before and after writing/erasing through iterators; non-trivial: at least one '
                'entry and two cells.', assumptions=[FP, SAN]),
    'C03': dict(mult=22, rule='Histories of elementwise operations on dense and fixed matrices mirrored on grids, all cells and reductions compared; '
                'non-trivial: at least 3 steps, an arithmetic step and more than one cell (special value law: more than one cell).', assumptions=[FP, SAN]),
    'C04': dict(mult=22, rule='Random dyadic matrices of conforming (and nonconforming) shapes, every product, transpose and adjoint in every storage kind '
                'compared exactly with triple loops; non-trivial: both operands nonzero and more than one cell.', assumptions=[FP, SAN]),
    'C05': dict(mult=30, rule='Every constructor and converter compared cell by cell with its formula; non-trivial: more than one cell and not all zero.',
                assumptions=[FP, SAN]),
    'C06': dict(mult=22, rule='Members of each class, the same changed in one entry, and arbitrary matrices, all predicates decided exactly by definition; '
                'non-trivial: more than one cell and not all zero.', assumptions=[FP, SAN, 'entries are dyadic, so the definition can be decided in exact arithmetic']),
    'C07': dict(mult=30, rule='Histories of operations on several vectors mirrored on std::vector; non-trivial: at least 3 steps, an arithmetic step, '
                'more than one element (set law: more than one element).', assumptions=[FP, SAN]),
    'C08': dict(mult=25, rule='Random matrices of seven structures (most need row exchanges), singular and rectangular ones; non-trivial: more than one row and '
                'at least one exchange (refusals: the input has to be refused).', assumptions=[FP, SAN, 'condition number at most 3e4 (double) or 300 (float), entries well above machine epsilon']),
    'C09': dict(mult=20, rule='Hand made triangular factors, regular matrices with known exact solution, inverses against a long double inverse, refusals; '
                'non-trivial: more than one row and a nonzero right hand side.', assumptions=[FP, SAN, 'condition number at most 3e4 (double) or 300 (float)']),
    'C10': dict(mult=50, rule='Dyadic matrices up to 6x6 whose determinant is computed exactly in 128 bit Gaussian integers; non-trivial: more than one row and a determinant '
                'above the tolerance, or a singular matrix.', assumptions=[FP, SAN]),
    'C11': dict(mult=30, rule='A = L0 L0* with exactly known factor, indefinite matrices, wrong shapes, scaled matrices; up to 150 rows; non-trivial: the factor has off-diagonal entries.',
                assumptions=[FP, SAN, 'condition number at most 1e8 (double) or 1e3 (float)']),
    'C12': dict(mult=14, rule='Random patterns, stencils, patterns without diagonal entry, complete factors; non-trivial: entries below the diagonal (off-diagonal entries).',
                assumptions=[FP, SAN, 'output matrices are fresh, as the functions expect']),
    'C13': dict(mult=22, rule='Diagonally dominant and hermitian positive definite systems with known exact solution (1-180 unknowns); runs to convergence are repeated with a limit of exactly the reported count; non-trivial: more than one unknown and more than two '
                'iterations (single sweeps: the sweep moves the vector).', assumptions=[FP, SAN]),
    'C14': dict(mult=28, rule='Symmetric positive definite systems with known exact solution (1-180 unknowns), with and without preconditioner, long chains; converged runs are repeated with a limit of exactly the reported count; non-trivial: more than one unknown and more than one step.',
                assumptions=[FP, SAN, 'condition number at most 200']),
    'C15': dict(mult=12, rule='Random graphs, trees, forests, grids, cycles, cliques, stars with random labels and diagonals; all permutations. Non-trivial: more than two vertices and an edge; '
                'permutation that is not its own inverse.', assumptions=[FP, SAN]),
    'C16': dict(mult=60, rule='Random triangles of minimum quality, both orientations, scales 2^-6..2^6 and offsets; relabelled and moved triangles; triangles prepared, changed in any coordinates or copied, and prepared again; independent vectors in 2-5 dimensions. '
                'Non-trivial: the triangle is not the unit triangle (relabelling: not the identity; normals: several vectors).',
                assumptions=[FP, SAN, 'tolerances grow with the condition of the triangle']),
    'C17': dict(mult=50, rule='Random polynomials up to the guaranteed degree with dyadic coefficients on random intervals and triangles, exact integrals from closed forms; non-trivial: nonzero polynomial.', assumptions=[FP, SAN, 'orders that exist (1-3 in one and two dimensions); others do not compile']),
    'C18': dict(mult=50, rule='Random points (inside, at nodes, outside) and random nodal weights for all seven implemented elements; non-trivial: the point is not the first node (or a linear line element).',
                assumptions=[FP, SAN]),
    'C19': dict(mult=25, rule='Random triangle complexes (pieces of jittered grids with holes, fans, triangles glued at random up to closed surfaces, one or two components) with any numbering and '
                'orientation, compared with a brute force edge table; crowded edges; eight kinds of inconsistency. Non-trivial: an inner edge (crowded edge: more than three elements, '
                'inconsistency: more than one element).', assumptions=[FP, SAN, 'meshes are built with addVertex/addElement as documented in Mesh.h']),
    'C20': dict(mult=12, rule='Random counts of 1-24 cells per axis (seldom a grid beyond 65536 vertices), extents and offsets; non-trivial: more than one cell.', assumptions=[FP, SAN, 'positive extents; cells not finer than 64 rounding errors of the coordinates']),
    'C21': dict(mult=50, rule='Histories of 2-24 lifecycle operations over up to 6 meshes mirrored on a model of shared bodies, all live meshes compared after each step; crowds of up to 65538 copies; separate histories count the memory blocks left. '
                'Non-trivial: at least two transfers and data shared by two meshes at some time (blocks: more than one mesh).', assumptions=[FP, SAN, 'a mesh that was moved from is only assigned to or destroyed']),
    'C22': dict(mult=24, rule='The complexes of C19 and generated grids (seldom beyond 65536 vertices), linear and quadratic, compared with the documented numbering; non-trivial: an inner edge.', assumptions=[FP, SAN, 'prepareMesh is called once, after setupNeighbors']),
    'C23': dict(mult=25, rule='Complexes of C19 printed as node and element files in random layout (base 0 or 1, comments, blank lines, tabs, CRLF, attributes, markers, number formats) and read back (seldom beyond 65536 vertices); one of twenty '
                'definite mistakes; mutated and random text. Non-trivial: more than one element (mutated: the text is read or refused with a mesh exception).',
                assumptions=[FP, SAN, 'the count in the header of a file, which the loader reserves, is at most six digits', 'surplus fields and the counts of the header are not checked by the loader']),
    'C24': dict(mult=30, repo_sources=['src/objloader/loader/MeshObjLoader.cpp'], rule='Complexes of C19 and convex polygons printed as OBJ text in random layout (four index styles, relative indices, interleaved lines, unused vertices, groups, unknown '
                'materials, long names, line endings) and read back (seldom beyond 65536 vertices); definite mistakes; mutated and random text, also as material library, on which the mesh must not depend. Non-trivial: more than one element (mutated: every text).',
                assumptions=[FP, SAN, 'numbers have a digit before the point, as documented in tiny_obj_loader.h']),
    'C25': dict(mult=35, rule='Complexes and generated grids (seldom beyond 16-bit offsets) prepared for linear or quadratic elements, random point and cell data sets and options, written and read back with an independent strict XML reader; '
                'non-trivial: more than one element.',
                assumptions=[FP, SAN, 'names of data sets have no XML special characters', 'data sets hold one value per vertex or element']),
    'C26': dict(mult=4, repo_sources=['src/objloader/loader/MeshObjLoader.cpp'], programs={'fem': 'examples/poisson/fem.cpp'},
                rule='Random meshes (affine images of jittered grids, fans, generated grids), interval partitions, difference grids and space-time grids; polynomial, smooth or discrete reference solution; '
                'every solver of the library in turn; the program poisson_fem on random arguments and mesh files. Non-trivial: inner unknowns exist.',
                assumptions=[FP, SAN, 'the program is built without sanitizers; its matrix may be the one of the known finding on meshes from files', 'smooth solutions: error at most 0.4 (k h)^2 for linear, 0.1 (k h)^3 for quadratic elements']),
    'C28': dict(mult=60, threads=True, repo_sources=['src/objloader/loader/MeshObjLoader.cpp'],
                rule='Plans of 2-4 threads with 1-4 computations each (matrices, vectors, factorisations, solvers, orderings, elements, quadrature, shape functions, meshes, grids, loaders, exporter), or reading one shared object; '
                'each plan runs in a process of its own, first with all threads at the same time, then one after the other in two orders with other contents of fresh memory; every result is compared bit by bit. Non-trivial: more than two computations.',
                assumptions=[FP, 'built with the thread sanitizer', 'threads share only objects they read; copies of one mesh share a counter and stay in one thread']),
    'C27': dict(mult=30, rule='Vectors and matrices of every kind with values of many magnitudes printed with random precision and format flags, compared word by word with the printed values and read back; '
                'non-trivial: more than one entry (matrices: not all zero).', assumptions=[FP, SAN, 'no field width is set on the stream']),
}
