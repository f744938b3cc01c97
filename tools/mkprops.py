#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

M='src/matrix.rs'; LU='src/decomp/lu.rs'; QR='src/decomp/qr.rs'; CH='src/decomp/cholesky.rs'; EI='src/decomp/eigen.rs'; SV='src/decomp/svd.rs'; IU='src/internalutil.rs'
DATA=('data/no_rows','row-major elements; the column count is derived from them','src/matrix.rs Matrix<T>')

p('C01','A matrix is a faithful row-major table through any history of operations',
 'A matrix built by any constructor reports exactly the shape it was asked for and holds exactly the elements it was given (identity, zero, diagonal, block-diagonal and vector constructors place ones, zeros and the given diagonal as named, for non-square shapes too). Through any history of writes (set, mutable references, in-place maps and other in-place operations, direct access to the element vector) every accessor reads back the last value written at that position and nothing else changes, map and reduce apply the function to every element (reduce per column, in row order), and clones are independent. Two matrices compare equal exactly when their shapes and all corresponding elements are equal.',
 ['histories','inputs'],'every shape with positive dimensions, every element type, every sequence of constructor, accessor and mutator calls',
 'The unit tests read back a few 2x2 and 2x3 literals after one call each; they never run a sequence of calls against a model, nor larger or lopsided shapes.',
 [M],[('row-major indexing','src/matrix.rs get/set/get_ref/get_mref/Index'),('constructors','src/matrix.rs new..one_vector'),('map/mmap/reduce','src/matrix.rs')],
 ['rows','cols','get','get_ref','get_data','index','==','clone'],[DATA])

p('C02','Transposing, concatenating and selecting move elements to the right place',
 'Transpose, column-wise and row-wise concatenation (including the | operator), minor, sub-matrix, column extraction, row/column permutation (with repeats and omissions), filtering and boolean selection each return a matrix of exactly the expected shape in which every element is the source element its definition names, unchanged. A sub-matrix may be any in-range block, up to and including the whole matrix. The source matrices are left unchanged.',
 ['inputs'],'every shape, every in-range index list, block, selector and predicate',
 'The tests check single 2x2..3x3 examples; they do not exercise full-range blocks, repeated indices, lopsided shapes, or every index.',
 [M],[('index arithmetic of each rearrangement','src/matrix.rs t, cr, cb, minor, sub_matrix, get_column, permute_rows, permute_columns, filter_*, select_*')],
 ['the returned matrix'],[DATA])

p('C03','In-place and by-value/by-reference forms compute the same result',
 'Every in-place operation (transpose, negate, scale, add, subtract, element-wise multiply and divide, multiply, map) leaves its receiver equal, in shape and every element, to what the corresponding value-returning form returns, and does not modify its argument. Every ownership form of +, -, *, unary minus and | gives the same matrix as the reference form.',
 ['inputs','histories'],'all shapes (including single rows, single columns and 1x1), all element values, chains of in-place operations',
 'The tests compare a handful of 2x2/2x3 literals; the in-place transpose in particular follows permutation cycles whose structure depends on the shape.',
 [M],[('cycle-following in-place transpose','src/matrix.rs mt'),('in-place arithmetic','src/matrix.rs mneg, mscale, madd, msub, melem_mul, melem_div, mmul, mmap'),('operator impls','src/matrix.rs impl Add/Sub/Mul/Neg/BitOr')],
 ['receiver after the call','argument after the call'],[DATA])

p('C04','Arithmetic and matrix products are exactly the textbook definitions',
 'Sum, difference, negation, scaling, element-wise product and quotient act element by element, and the matrix product has element (i,j) equal to the sum over k of left(i,k) times right(k,j), factors in that order, over every element type; the result is exact for exact types and within accumulated rounding error for floats. Signed zeros, infinities and NaN take part like any other value (no element is skipped because another is zero). Products with vectors, row vectors and identities are special cases and obey the same definition.',
 ['inputs'],'all conformable shapes including very long or thin ones, all element types (integers, modular, non-commutative, rational, f32, f64) and all values whose exact result is representable',
 'The tests multiply one or two small integer matrices; they cannot see errors that need particular shapes, factor order or element types.',
 [M],[('element loops','src/matrix.rs Add, Sub, Neg, scale, elem_mul, elem_div'),('triple loop','src/matrix.rs Mul')],
 ['the returned matrix'],[DATA])

p('C05','Ill-shaped or out-of-range requests are refused and change nothing',
 'A request whose shapes or indices do not fit (element counts that do not match a shape, out-of-range reads and writes, non-conformable arithmetic, concatenation or products, blocks, minors, columns, permutations or selectors outside the matrix, square-only operations such as determinant, inverse, singularity test, linear solve and eigendecomposition on non-square matrices, right-hand sides of the wrong height, vector norms of non-column matrices) is refused by a panic, never answered with a wrong matrix or number; a Cholesky decomposition of a non-square matrix is refused by returning None. A refused in-place operation leaves the receiver exactly as it was.',
 ['inputs'],'every shape pair and every index that does not fit',
 'The should_panic tests cover one fixed bad index or shape each, and none covers row/column transposition of bounds, wrap-around into the next row, or the state after a refused in-place call.',
 [M,LU,QR,CH,EI],[('shape and bound assertions','src/matrix.rs, src/decomp/*.rs assert!')],
 ['panic or None','receiver after a refused call'],[DATA])

p('C06','Results depend only on the arguments, never on memory contents',
 'Every operation and decomposition returns bit-for-bit the same result each time it is given the same arguments, whatever was in the memory it was handed and whatever was computed before it, and it writes only inside the storage it allocated. Inputs passed by reference are never modified.',
 ['inputs','histories'],'all operations, shapes and element values; all prior contents of allocated memory',
 'Result buffers are allocated uninitialised throughout; a test run sees one memory state (usually fresh zero pages), so reading an element that was never written usually looks correct.',
 [IU,M,LU,QR,CH,EI,SV],[('uninitialised buffers that must be fully written before being read','src/internalutil.rs alloc_dirty_vec and every caller')],
 ['bit pattern of every result under different allocator fill patterns','guard bytes around allocations'])

p('C07','LU: PA = LU with L unit lower, U upper, P a permutation, any shape',
 'For every finite matrix of any shape, the LU decomposition gives a permutation (the same one as pivot vector and as permutation matrix), a unit lower-trapezoidal L of shape m x min(m,n) with no entry above one in magnitude, and an upper-trapezoidal U of shape min(m,n) x n, such that the row-permuted input equals L times U up to rounding error; in exact arithmetic the equality is exact.',
 ['inputs'],'all shapes (tall, wide, square), singular and zero matrices, ties between pivots, graded and badly scaled entries, f32 and f64',
 'The tests decompose two or three fixed matrices; pivoting order, zero pivots and non-square shapes depend on the values.',
 [LU],[('column-oriented Doolittle elimination with partial pivoting','src/decomp/lu.rs new'),('factor extraction','src/decomp/lu.rs get_l, get_u, get_p, get_piv')],
 ['get_l','get_u','get_p','get_piv'],[('lu','packed L and U','src/decomp/lu.rs'),('piv','row permutation','src/decomp/lu.rs')])

p('C08','The determinant is the true determinant, with its sign',
 'For every square matrix the determinant, asked of the matrix or of its LU decomposition, equals the exact determinant (exactly in exact arithmetic, within rounding error for floats), so it is zero for exactly singular matrices in exact arithmetic, changes sign when two rows are swapped, is multiplicative over products, and is unchanged by transposition.',
 ['inputs'],'all square matrices, every row-exchange pattern during elimination, exact rationals, f32 and f64',
 'The tests use two or three small matrices; sign errors depend on the parity of the row exchanges the values force.',
 [LU,M],[('product of pivots times sign of the row permutation','src/decomp/lu.rs det, pospivsign')],
 ['det'],[('pospivsign','parity of the row exchanges','src/decomp/lu.rs')])

p('C09','Linear solve, inverse and singularity tests agree and are correct',
 'For a square matrix, solve returns a solution of A X = B (any number of right-hand sides, backward-stable residual for floats, exact in exact arithmetic) and inverse returns the two-sided inverse, or both return None; they return None exactly when the singularity test says singular, which in exact arithmetic is exactly when the determinant is zero. A float matrix with a zero row or zero column is always reported singular. The matrix methods and the LU methods give the same answers.',
 ['inputs'],'all square matrices and right-hand sides, singular ones included, exact rationals, f32 and f64',
 'The tests solve two or three fixed systems; wrong pivoting of right-hand sides, multiple right-hand sides and singular detection need other inputs.',
 [LU,M],[('forward and back substitution on permuted right-hand side','src/decomp/lu.rs solve'),('zero-pivot test','src/decomp/lu.rs is_non_singular')],
 ['solve','inverse','is_singular','is_non_singular'])

p('C10','QR: A = QR with Q orthogonal m x m and R upper, any shape',
 'For every finite matrix whose norm is in range, the QR decomposition gives an m x m orthogonal Q and an m x n upper-trapezoidal R whose product is the input up to rounding error, whatever its shape or rank. The Householder vectors it reports are lower-trapezoidal and reflecting along them in order turns the input into R.',
 ['inputs'],'all shapes (tall, wide, square, single row or column), rank-deficient and zero columns, graded entries, f32 and f64',
 'The tests check a few fixed matrices and never a tall Q beyond its leading columns.',
 [QR],[('Householder reflections','src/decomp/qr.rs perform_householder_reflection'),('Q by applying reflections to the identity','src/decomp/qr.rs get_q')],
 ['get_q','get_r','get_h'],[('qr','R above, Householder vectors below the diagonal','src/decomp/qr.rs'),('rdiag','diagonal of R','src/decomp/qr.rs')])

p('C11','QR least squares: minimal residual, refused only without full column rank',
 'For a matrix of full column rank (square or tall), QR solve returns an n x k matrix minimising the residual of every right-hand side: the residual is orthogonal to the columns of the matrix up to rounding error, and for square systems it solves the system. The full-rank predicate is true for matrices with independent columns and false for wide matrices and for matrices with a zero column, and solve returns None exactly when the predicate is false.',
 ['inputs'],'all tall and square full-rank matrices and right-hand sides, wide and column-deficient matrices, f32 and f64',
 'The existing test never solves an over-determined system; the minimising property must hold for every right-hand side.',
 [QR],[('apply reflections to the right-hand side, back substitution','src/decomp/qr.rs solve'),('diagonal of R','src/decomp/qr.rs is_full_rank')],
 ['solve','is_full_rank'])

p('C12','Cholesky exists exactly for symmetric positive definite matrices; LL\' = A',
 'Cholesky decomposition returns a factor exactly when the matrix is square, exactly symmetric and positive definite (exactly so in exact arithmetic; for floats, whenever the smallest eigenvalue is clearly above or clearly not above zero relative to rounding), and None otherwise. The factor is lower triangular with positive diagonal and zeros above it, its product with its transpose is the input up to rounding, and solving with it satisfies A X = B for every right-hand side.',
 ['inputs'],'all square matrices: positive definite, semidefinite, indefinite, asymmetric in any single pair of entries, any size, exact rationals, f32 and f64',
 'The tests use three fixed matrices; the acceptance test must be right for every position of an asymmetry or failing minor.',
 [CH],[('row-wise Cholesky with symmetry and positivity test','src/decomp/cholesky.rs new'),('two triangular solves','src/decomp/cholesky.rs solve')],
 ['new returning Some/None','get_l','solve'])

p('C13','Symmetric eigendecomposition: A = VDV\', V orthogonal, sorted, real',
 'For every exactly symmetric finite matrix the eigendecomposition returns an orthogonal V and real eigenvalues in non-increasing order with all imaginary parts zero, such that A V = V D up to rounding relative to the norm of A, where D is the diagonal matrix of those eigenvalues.',
 ['inputs'],'all symmetric matrices: repeated and zero eigenvalues, diagonal, tridiagonal, zero off-diagonal blocks, rank deficient, graded, size 1, f32 and f64',
 'The tests decompose two fixed matrices; deflation and degenerate reduction steps need particular zero patterns and multiplicities.',
 [EI],[('Householder tridiagonalisation and implicit QL','src/decomp/eigen.rs tred2, tql2'),('sorting','src/decomp/eigen.rs tql2')],
 ['get_v','get_d','get_real_eigenvalues','get_imag_eigenvalues'])

p('C14','General eigendecomposition: AV = VD, right spectrum, conjugate pairs',
 'For every finite real square matrix whose entries are of comparable magnitude, at any scale short of the ends of the range, the eigendecomposition satisfies A V = V D up to rounding, D being block diagonal with real eigenvalues in 1x1 blocks and each complex pair in one 2x2 block [re, im; -im, re] with the positive imaginary part first, in agreement with the reported real and imaginary parts. The eigenvalues have the spectrum of A (trace, determinant and power sums agree up to rounding), and every eigenvector is non-zero for matrices with well-separated eigenvalues.',
 ['inputs'],'all square matrices: defective, nilpotent, companion, orthogonal, block triangular, real and complex spectra, f32 and f64',
 'The tests decompose two or three fixed matrices; deflation, exceptional shifts and back-substitution branches are reached only by particular spectra.',
 [EI],[('Hessenberg reduction and double-shift QR','src/decomp/eigen.rs orthes, hqr2'),('complex back-substitution','src/decomp/eigen.rs hqr2, cdiv'),('block-diagonal D','src/decomp/eigen.rs get_d')],
 ['get_v','get_d','get_real_eigenvalues','get_imag_eigenvalues'])

p('C15','SVD: A = USV\' with orthogonal U, V and sorted non-negative diagonal S',
 'For every finite matrix of any shape the singular value decomposition returns an m x m orthogonal U, an n x n orthogonal V and an m x n matrix S that is zero off the diagonal and has non-negative, non-increasing diagonal, such that U S V\' equals the input up to rounding relative to its norm; scaling the input by a power of two scales S.',
 ['inputs'],'all shapes (tall, wide, square, single row/column), rank-deficient, zero, repeated singular values, graded and extremely scaled entries, f32 and f64',
 'The tests decompose a few fixed matrices; the four deflation cases and the wide path depend on the values.',
 [SV,IU],[('bidiagonalisation and implicit-shift QR with deflation','src/decomp/svd.rs new'),('overflow-safe hypot','src/internalutil.rs hypot')],
 ['get_u','get_s','get_v'])

p('C16','SVD rank counts the numerically non-zero singular values, any shape',
 'The rank reported by the singular value decomposition is the number of singular values above machine precision times the largest dimension times the largest singular value: it is the true rank whenever the non-zero singular values are well above that threshold and the others well below it, for tall, wide and square matrices in f32 and f64, and is zero for a zero matrix. Transposing or scaling by a power of two does not change it.',
 ['inputs'],'all shapes and ranks 0..min(m,n), well separated singular values',
 'The existing test checks one or two square matrices.',
 [SV],[('threshold count','src/decomp/svd.rs rank')],['rank'])

p('C17','The direct SVD is a valid SVD for well-conditioned full-rank matrices',
 'For a matrix of full rank and moderate condition number, of any shape, the direct method returns orthogonal U (m x m) and V (n x n) and an m x n diagonal S with positive non-increasing diagonal whose product U S V\' is the input up to rounding amplified by the squared condition number, with the same singular values as the standard method.',
 ['inputs'],'all shapes, all well-conditioned full-rank matrices, f64 and f32',
 'The test runs a couple of fixed matrices and never checks that U is orthogonal for tall input.',
 [SV,EI],[('eigendecomposition of A\'A','src/decomp/svd.rs direct')],['get_u','get_s','get_v'])

p('C18','The pseudo-inverse satisfies the Moore-Penrose conditions',
 'For every matrix of full column rank and moderate condition number (square or tall) the pseudo-inverse X is n x m and satisfies A X A = A, X A X = X, with A X and X A symmetric, up to rounding amplified by the squared condition number; in particular X A is the identity, and for square matrices X is the inverse.',
 ['inputs'],'all tall and square full-column-rank matrices, f32 and f64',
 'The test checks one fixed matrix.',[M,QR,LU],[('(R\'R)^-1 A\' from the QR factor','src/matrix.rs pinverse')],['pinverse'])

p('C19','Every decomposition finishes, with finite results, on every finite input',
 'Every decomposition, solve, determinant, inverse, rank and norm finishes within a number of element operations bounded by a fixed polynomial in the dimensions on every finite matrix of ordinary scale (the singular value and symmetric eigendecompositions: of any scale), and the factors, eigenvalues and singular values it returns are finite.',
 ['inputs'],'all finite matrices in f32 and f64, with entries of ordinary scale or, for SVD and symmetric eigendecomposition, anywhere in the range: structured, defective, repeated, nilpotent, orthogonal, graded',
 'The iterations have no iteration cap, so whether they converge depends on the values; a finite set of tests says nothing about the others.',
 [EI,SV,LU,QR,CH,M],[('convergence tests of the QL/QR iterations','src/decomp/eigen.rs tql2, hqr2; src/decomp/svd.rs new'),('underflow/zero guards','src/decomp/*.rs')],
 ['number of element operations until return','finiteness of results'])

p('C20','Vector and matrix norms and the trace are correct for all inputs',
 'The 1-, 2- (under all its names), infinity- and p-norm of a column vector and the Frobenius norm of any matrix equal their definitions up to rounding for all finite entries of either sign whose powers stay in range, including fractional p of at least one; the trace is the sum of the diagonal of any matrix, square or not. Norms are non-negative, zero only for the zero vector, absolutely homogeneous, and satisfy the triangle inequality.',
 ['inputs'],'all vectors and matrices, all signs, all p >= 1, f32 and f64',
 'The tests evaluate each norm once on small positive integers.',[M],[('norm loops','src/matrix.rs vector_*_norm, frobenius_norm, trace')],
 ['vector_euclidean_norm','length','vector_1_norm','vector_2_norm','vector_p_norm','vector_inf_norm','frobenius_norm','trace'])

p('C21','Approximate equality and shape/symmetry predicates mean what they say',
 'Two matrices are approximately equal exactly when their shapes match and every pair of corresponding elements differs by less than 1e-6 (the element type\'s own tolerance), whatever the position of the difference; a matrix is symmetric exactly when it is square and every off-diagonal element is approximately equal to its mirror image, and square exactly when its row and column counts agree. Each negated predicate is the exact opposite, and scalar approximate equality is symmetric and strict at its tolerance.',
 ['inputs'],'all shapes, differences at every single position and of either sign, non-finite elements, f32 and f64',
 'The tests check one positive and one negative example; a position that is never compared goes unseen.',[M,'src/approxeq.rs'],
 [('element loops','src/matrix.rs approx_eq, is_symmetric, is_square'),('scalar tolerance','src/approxeq.rs')],
 ['approx_eq','is_symmetric','is_non_symmetric','is_square','is_not_square','ApproxEq'])

p('C22','Reading CSV gives exactly the table in the file, or refuses',
 'Reading a comma-separated file with a parser returns the matrix with one row per line and one column per field, every element being the parser applied to the trimmed field, in order, for any number of rows and columns and with or without a final newline or carriage returns. A file whose lines have differing numbers of fields, an empty file, a missing file, a file that is not UTF-8 text, or a field the parser rejects is refused by a panic, never read as some other matrix.',
 ['inputs'],'all rectangular and ragged files, whitespace, line endings and sizes (including beyond internal buffer sizes)',
 'No existing test reads a file.',['src/util.rs'],[('line and field splitting, column count check','src/util.rs read_csv')],['the returned matrix or the panic'])

p('C23','The printed form of a matrix shows every element, row by row, aligned',
 'The debug text of a matrix starts with a newline and has one line per row, each of the form "| elements |", with all lines equally long and every element shown in its own debug form, in order and right-aligned to a common column width, separated by at least one space (widths counted in characters). Reading the elements back from the text recovers the matrix, and print writes exactly this text to standard output.',
 ['inputs'],'all shapes and element values of any printed width and sign',
 'Existing tests print but never check the text.',[M],[('padding to the widest element','src/matrix.rs impl Debug')],['format!("{:?}")','print'])

p('C24','Independent decompositions of one matrix agree with each other',
 'Quantities that several decompositions give must agree up to rounding: determinant with product of eigenvalues and with product of singular values (in magnitude) and with the diagonals of R and of the Cholesky factor; solutions by LU, QR and Cholesky; singular values of a symmetric matrix with magnitudes of its eigenvalues; Frobenius norm with the singular values; trace with the eigenvalue sum. Transforming the input predictably (transposing, permuting rows or columns, scaling by powers of two) transforms the result predictably.',
 ['inputs'],'all well-conditioned matrices in the common domain of the decompositions',
 'The tests check each decomposition against its own literals only.',[M,LU,QR,CH,EI,SV],[('independent algorithms for the same quantity','src/decomp/*.rs')],['det','solve','eigenvalues','singular values','norms'])

p('C25','The matrix literal macro builds exactly the matrix written',
 'A matrix literal with rows separated by semicolons and elements by commas builds the matrix with that many rows and columns and those elements in reading order, each element expression evaluated exactly once and left to right, for any element type and any expression. A literal whose rows have different lengths is refused rather than reshaped.',
 ['programs'],'all literals of every shape and of arbitrary element expressions',
 'The macro is used in tests but only with small rectangular literals of constants.',['src/macros.rs'],[('row and element counting','src/macros.rs m!, m_rec!, m_one!')],['the matrix built','the panic for ragged literals'])

p('C26','Random matrices have the requested shape and independently drawn elements',
 'A random matrix has exactly the requested shape, every element lies in the range of its type\'s standard random distribution ([0,1) for floats), and each element is a separate draw: elements do not repeat across positions or across calls beyond chance, and every position takes both small and large values.',
 ['inputs','configurations'],'all shapes and element types',
 'The existing test only checks the shape once.',[M],[('one draw per element','src/matrix.rs random')],['the returned matrix'])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
