LINOP = 'pykrylov/linop/linop.py'
BLK = 'pykrylov/linop/blkop.py'
LB = 'pykrylov/linop/lbfgs.py'
CG, CGS, BI, TF = ('pykrylov/cg/cg.py', 'pykrylov/cgs/cgs.py', 'pykrylov/bicgstab/bicgstab.py',
                   'pykrylov/tfqmr/tfqmr.py')
MR, SY = 'pykrylov/minres/minres.py', 'pykrylov/symmlq/symmlq.py'
LSQR, LSMR, CRAIG, CRMR = ('pykrylov/lls/%s.py' % x for x in ('lsqr', 'lsmr', 'craig', 'craigmr'))
GEN = 'pykrylov/generic/generic.py'
TOOLS = 'pykrylov/tools/utils.py'
GAL = 'pykrylov/gallery/gallery.py'

PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, over, quant, why, files, mech, note=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mech=mech, note=note))


P('L01', 'Every operator acts as its matrix, and so do its transpose and adjoint',
  'An operator built by any of the offered constructors, applied to any vector, gives the product of the matrix it '
  'stands for with that vector; its transpose, adjoint and conjugate give the products with the transposed, '
  'conjugate-transposed and conjugated matrix. In particular <Ax,y> = <x,A^H y> for all x and y, also when real '
  'vectors meet complex operators and the reverse.',
  ['inputs', 'configurations'],
  'all matrix entries and vector entries (real or complex), all constructors and all ways to describe the transpose '
  '(given, adjoint given, symmetric or Hermitian flag), shapes up to 4x3',
  'The tests try a handful of fixed matrices and vectors; the statement is over all entries and over every '
  'combination of the ways to describe an operator.',
  [LINOP], [('BaseLinearOperator, LinearOperator and the T/H/bar accessors', LINOP + ': LinearOperator'),
            ('operators from arrays, diagonals, coordinates, sparse objects', LINOP + ': linop_from_ndarray, '
             'DiagonalOperator, CoordLinearOperator, PysparseLinearOperator')])

P('L02', 'Transposes, adjoints and conjugates compose as in linear algebra',
  'Any sequence of transposing, taking the adjoint and conjugating an operator yields an operator that acts as the '
  'matrix transformed by the same sequence, with the matching shape. Transposing twice, and taking the adjoint '
  'twice, gives back the original operator.',
  ['inputs', 'histories'], 'every word of up to 4 transformations, all entries, all constructors',
  'Tests follow one or two chains for one operator; the inference rules that build missing transposes and adjoints '
  'are only wrong for particular chains and particular flags.',
  [LINOP], [('inference of the missing transpose or adjoint', LINOP + ': LinearOperator.__init__'),
            ('conjugate operator', LINOP + ': bar, conjugate')])

P('L03', 'Operator algebra agrees with matrix algebra',
  'Sums, differences, negation, products, powers, multiplication and division by scalars, and any expression built '
  'of them act as the same expression of the matrices, and so do the transposes, adjoints and conjugates of the '
  'result. Square roots of diagonal operators square to the operator.',
  ['inputs', 'programs'], 'all entries and scalars (int, real, complex, numpy scalars), operands of every '
  'constructor, expressions of up to four operations',
  'Tests evaluate some expressions on one vector; the rules for deriving transposes of combinations, for scalar '
  'types and for complex conjugation of scalars need every combination of operand kinds.',
  [LINOP], [('arithmetic on operators', LINOP + ': __add__, __sub__, __mul__, __rmul__, __truediv__, __pow__, '
             '__neg__')])

P('L04', 'Element types are those of the mathematics: no imaginary part is lost',
  'An operator reports the element type it was given, combinations of operators report the common type, and a '
  'product has the common type of operator and vector, so that it is complex exactly when an operand is. Values are '
  'never truncated to a narrower type.',
  ['inputs', 'configurations'], 'all pairs of the types int, float, single, complex, single complex for operator and '
  'vector, all entries',
  'Tests fix one pair of types at a time, mostly float with float; an imaginary part can only be lost for certain '
  'pairs.',
  [LINOP], [('result types', LINOP + ': __mul_vector, __add__, __mul_linop')])

P('L05', 'Operands of the wrong shape are refused, right ones are accepted',
  'Applying an operator to a vector of another length, adding or composing operators whose shapes do not fit, and '
  'raising a rectangular operator to a power raise an error, and so do operands that are no vectors and functions '
  'whose results have the wrong length; every fitting combination is accepted and has the '
  'shape of the matrix result.',
  ['inputs', 'configurations'], 'all shapes up to 3x3 and all vector lengths up to 4, both the operator and its '
  'transpose, adjoint and conjugate',
  'Tests check one or two mismatches; a wrong comparison (rows for columns) shows only for particular rectangular '
  'shapes.',
  [LINOP], [('shape checks', LINOP + ': __mul_vector, __mul_linop, __add__')])

P('L06', 'Applying an operator changes neither the operand nor the operator',
  'Products with an operator, its transposes and combinations leave the vector and the operator\'s data as they '
  'were, return storage of their own, and repeat with the same result. A diagonal operator does not follow later '
  'changes the caller makes to the array it was built from.',
  ['inputs', 'histories'], 'all entries, all constructors, sequences of products with writes to results and inputs '
  'between them',
  'Aliasing shows only when the caller goes on to change a result or an input; tests never do.',
  [LINOP], [('products and stored data', LINOP + ': DiagonalOperator, IdentityOperator, CoordLinearOperator')])

P('L07', 'An operator that says it is symmetric or Hermitian is',
  'Whenever an operator, built directly or derived by algebra, transposition, conjugation or reduction, reports '
  'being symmetric, its matrix equals its transpose; whenever it reports being Hermitian, its matrix equals its '
  'conjugate transpose. Its transpose and adjoint act accordingly; its description says what it is, and a flag that '
  'contradicts the functions or the shape given is refused.',
  ['inputs', 'programs'], 'all entries, every constructor and flag, all binary combinations',
  'Solvers trust these flags; tests look at them for some real operators, while a wrong propagation rule needs a '
  'product of symmetric or a complex multiple of Hermitian operators.',
  [LINOP], [('flags of derived operators', LINOP + ': __add__, __mul_linop, __mul_scalar, SymmetricallyReducedLinearOperator')])

P('L08', 'Reduced operators act as the submatrix they select',
  'Reducing an operator to given rows and columns gives the operator of the corresponding submatrix, with its '
  'transpose, adjoint and element type, also when reductions are nested; symmetric reduction preserves symmetry.',
  ['inputs', 'configurations'], 'all entries, all selections of distinct rows and columns in any order from '
  'matrices up to 4x3',
  'Tests use one selection in ascending order.',
  [LINOP], [('reduction', LINOP + ': ReducedLinearOperator, SymmetricallyReducedLinearOperator')])

P('L09', 'Coordinate operators act as the matrix their triples describe',
  'An operator given by values with row and column indices acts as the matrix obtained by adding each value at its '
  'place, repeated places included, whatever the order of the triples; with the symmetric flag the other triangle '
  'is implied. Inferred dimensions are the smallest that hold all indices.',
  ['inputs', 'configurations'], 'up to 5 triples with symbolic values and symbolic positions in matrices up to 3x3, '
  'real and complex',
  'The outcome depends on the positions coinciding, lying on the diagonal or in the last row; tests use one pattern.',
  [LINOP], [('triples', LINOP + ': CoordLinearOperator')])

P('L10', 'The product counter counts exactly the products made',
  'The counter of an operator starts at zero and grows by one with each product it performs, whichever way that '
  'product was asked for, directly or through a combination of operators; products with other operators, its transpose '
  'included, leave it alone (a product with the adjoint by rmatvec counts as one of the adjoint).',
  ['histories'], 'all sequences of up to 3 (thorough: 4) of the ways to ask for a product, every constructor',
  'Tests do not look at sequences of mixed products.',
  [LINOP], [('counter', LINOP + ': nMatvec, _matvec')])

P('L11', 'The Cholesky operator applies the inverse of its matrix',
  'Whatever the factorization library promises (a callable that solves with the given matrix, or an exception), '
  'CholeskyOperator(A) has the shape of A, is symmetric, solves A x = b for every positive definite A and every b, in '
  'any combination with other operators, rejects a matrix that is not square with ValueError and passes on the '
  'failure of the factorization.',
  ['inputs'], 'positive definite matrices of order up to 3 (thorough: 4), all right-hand sides',
  'The library is not installed where the tests run, so nothing executes this code at all.',
  ['pykrylov/linop/cholesky.py', LINOP], [('solve', 'pykrylov/linop/cholesky.py: CholeskyOperator')])

P('B01', 'Block operators act as the block matrix',
  'An operator assembled from a grid of operators acts as the matrix assembled from their matrices, and its '
  'transpose, adjoint and conjugate as those of that matrix, for any block sizes and mixture of real and complex '
  'blocks, nested too. With the symmetric or Hermitian flag the lower triangle is implied by the upper, and the '
  'lists given by the caller stay as they were.',
  ['inputs', 'configurations'], 'all entries, grids up to 3x3 with blocks up to 3x3 of unequal sizes, real, complex '
  'and mixed',
  'Tests use one or two grids with equal sizes and real entries.',
  [BLK], [('assembly', BLK + ': BlockLinearOperator')])

P('B02', 'Block access and assignment keep a block operator consistent',
  'Reading blocks by index, slice, iteration and containment shows the blocks the operator is made of. After a '
  'block is replaced the operator, and every transpose or adjoint of it obtained before or after, acts as the new '
  'block matrix; a replacement that does not fit (in shape, in the symmetry the operator promises, or a complex '
  'block in a real operator) is refused, and one of a wider element type widens the type of the operator.',
  ['inputs', 'histories'], 'all entries, sequences of up to 2 assignments (each by index, slice or through the '
  'transpose), plain, symmetric and Hermitian grids',
  'No test assigns a block and then applies a transpose obtained earlier.',
  [BLK], [('indexing', BLK + ': __getitem__, __setitem__, __contains__, __iter__')])

P('B03', 'Block-diagonal operators act as the block-diagonal matrix',
  'A block-diagonal operator acts as the direct sum of its blocks, rectangular blocks included, and its transpose, '
  'adjoint and conjugate as those of that matrix, also after blocks were replaced; it is symmetric or Hermitian '
  'exactly when all its blocks are. No replacement loses part of a block: a complex block in a real operator is '
  'refused, a wider element type widens the type of the operator.',
  ['inputs', 'histories'], 'all entries, up to 3 blocks of sizes 1x1 to 2x3, real, complex and mixed, up to two '
  'replacements',
  'Tests have square real blocks and never replace one.',
  [BLK], [('block diagonal', BLK + ': BlockDiagonalLinearOperator, BlockPreconditioner, BlockDiagonalPreconditioner')])

P('B04', 'Blocks that do not tile a matrix are refused',
  'A grid whose blocks do not have equal heights along each row and equal widths along each column, or that is '
  'ragged, is refused with an error, and every grid that does tile is accepted. With a symmetry flag, diagonal '
  'blocks without that symmetry are refused.',
  ['inputs', 'configurations'], 'all grids up to 3x3 with block dimensions 1 or 2, and symmetric grids',
  'Tests reject one or two grids; an incomplete comparison lets particular inconsistent grids through, and the '
  'product then silently reads the wrong part of the vector.',
  [BLK], [('validation', BLK + ': BlockLinearOperator.__init__')])

P('Q01', 'The inverse limited-memory operator is the BFGS formula of its pairs',
  'With any stored pairs of positive curvature, applying the inverse limited-memory operator equals applying the '
  'BFGS inverse update formula with the newest retained pairs to the (scaled) identity. It is symmetric and maps '
  'the newest gradient change to the newest step.',
  ['inputs', 'histories'], 'all pairs with s\'y >= 1/1000 and all vectors in up to 3 dimensions; up to 3 pairs '
  'retained out of up to 5 stored; with and without scaling',
  'No test exercises these operators; wrap-around of the storage and scaling need particular histories.',
  [LB], [('two-loop recursion', LB + ': InverseLBFGSOperator.lbfgs_matvec, store')])

P('Q02', 'Forward limited-memory operators invert the inverse one',
  'With the same stored pairs, the forward limited-memory operator and its compact form undo the inverse operator '
  'on every vector, are symmetric, and map the newest step to the newest gradient change.',
  ['inputs', 'histories'], 'all pairs with s\'y >= 1/1000 and all vectors in up to 3 dimensions; up to 3 pairs '
  'retained out of up to 5 stored; with and without scaling',
  'No test exercises these operators.',
  [LB], [('outer products', LB + ': LBFGSOperator.lbfgs_matvec'),
         ('compact representation', LB + ': CompactLBFGSOperator.lbfgs_matvec')])

P('Q03', 'Limited-memory storage: curvature test, capacity, restart',
  'Pairs without positive curvature leave the operator unchanged; of the accepted pairs exactly the newest, up to '
  'the capacity, determine the operator, which never depends on what the caller does later to the arrays it '
  'passed. After a restart the operator is the identity and evolves like a new one.',
  ['inputs', 'histories'], 'all sequences of up to 5 pairs, each of either sign of curvature, capacity up to 3',
  'No test exercises the storage.',
  [LB], [('storage', LB + ': store, restart')])

P('Q04', 'Structured limited-memory operator: symmetric, satisfies its secant equation',
  'The structured limited-memory operator is symmetric for any pairs it retains, maps the newest step to the '
  'newest structured gradient change, and is the matrix that the structured BFGS recursion builds from its pairs, '
  'oldest first. A triple of positive s\'Bs is retained exactly when s\'y + sqrt(s\'y s\'Bs) reaches the threshold 1e-8.',
  ['inputs', 'histories'], 'all pairs with s\'y and s\'Bs positive, up to 3 dimensions and pairs',
  'No test exercises this operator.',
  [LB], [('structured update', LB + ': StructuredLBFGSOperator')])

P('Q05', 'Limited-memory operators apply to vectors of any numeric type',
  'Each limited-memory operator (inverse, forward, compact, structured) applied to a complex, integer or '
  'single-precision vector gives the same vector as its matrix does: with a complex x + iy the result is Hx + iHy, '
  'an integer vector gives what the same vector of floats gives, and the operand is unchanged.',
  ['inputs', 'histories'], 'all pairs and vectors, up to 3 dimensions and pairs',
  'The tests only apply the operators to vectors of doubles.',
  [LB], [('two-loop recursion and compact form', LB + ': lbfgs_matvec of the four operators')])

FOUR = [CG, CGS, BI, TF, GEN]

P('K01', 'Reported residual norms are those of the returned solution',
  'After any number of products, the final residual norm reported by CG, CGS and Bi-CGSTAB is exactly the norm of '
  'b - Ax for the solution returned (for preconditioned CG, in the norm of the preconditioner), and for TFQMR the '
  'reported bound times sqrt(k+1) is not less than it, k being the number of products made by its iterations. The '
  'initial residual norm is that of the guess, or of zero, and the returned solution is the same object under both '
  'of its names.',
  ['inputs', 'configurations'],
  'all matrices, right-hand sides, guesses and positive definite preconditioners of size up to 3, every product '
  'limit up to 4, executions without breakdown (division by zero)',
  'Recurrences for the residual agree with the true one only if every vector is updated consistently; tests look at '
  'final errors after full convergence of one matrix, where any drift is hidden.',
  FOUR, [('residual recurrences', '%s, %s, %s, %s: solve' % (CG, CGS, BI, TF))])

P('K02', 'The convergence flag tells the truth about the requested tolerance',
  'When CG, CGS, Bi-CGSTAB or TFQMR report convergence, the residual norm of the returned solution is at most the '
  'larger of the absolute tolerance and the relative tolerance times the initial residual norm; when they do not, it '
  'is above it and the method stopped because the product limit left no room for another iteration, or, for CG, '
  'because the matrix was found not to be positive definite.',
  ['inputs', 'configurations'],
  'all matrices, right-hand sides and guesses of size up to 3, all tolerances and all product limits up to 4, '
  'executions without breakdown',
  'Tests run with the default tolerances to full convergence; whether a flag is right at an early stop, with either '
  'tolerance deciding, is a statement over all tolerances, limits and systems.',
  FOUR, [('stopping tests', '%s, %s, %s, %s: solve' % (CG, CGS, BI, TF))])

P('K03', 'The product limit is respected and all products are counted',
  'CG, CGS, Bi-CGSTAB and TFQMR never make more products with the operator than the limit given to them (except the '
  'one that an initial guess needs), or than 2n with the default limit, and the number they report is the number '
  'they made.',
  ['inputs', 'configurations'],
  'all matrices, right-hand sides, guesses, tolerances of size up to 3 and all limits up to 4, breakdowns included',
  'Tests compare neither the count nor the limit with the products actually made; the off-by-one cases need a stop '
  'at a particular half of an iteration.',
  FOUR, [('counting and limits', '%s, %s, %s, %s: solve' % (CG, CGS, BI, TF))])

P('K04', 'Solving leaves its inputs alone and can be repeated',
  'Solving changes neither right-hand side, guess nor matrix, and the solution shares no storage with them. Solving '
  'again, also after solving another system with the same object, gives the same solution, residual norms, count '
  'and flag; integer right-hand sides give what the equal floating-point ones give.',
  ['inputs', 'histories'],
  'all systems of size up to 3, guesses, preconditioners, limits up to 4, sequences of two solves',
  'Tests use each solver object once and never look at the arrays they passed.',
  FOUR, [('in-place updates', '%s, %s, %s, %s: solve' % (CG, CGS, BI, TF))])

P('K05', 'The methods solve nonsingular systems in at most n steps',
  'In exact arithmetic, and unless a division by zero breaks the method down, CG solves every positive definite '
  'system of size n within n products, and CGS, Bi-CGSTAB and TFQMR every nonsingular system within 2n products, '
  'from any guess and with any positive definite preconditioner; they then report convergence and a zero residual.',
  ['inputs', 'configurations'],
  'all matrices, right-hand sides, guesses and preconditioners; sizes up to 3 for CG (size 3 from the condensed '
  'form), up to 2 for the others',
  'Tests solve a few matrices with generous limits, with which slower than possible methods (a slightly wrong search '
  'direction) still converge.',
  FOUR, [('search directions', '%s, %s, %s, %s: solve' % (CG, CGS, BI, TF))])

P('K06', 'CG iterates are optimal and negative curvature is reported',
  'After k products, the residual of the CG iterate is orthogonal to the Krylov space of dimension k (of the '
  'preconditioned operator). CG reports an indefinite operator exactly when it meets a direction of nonpositive '
  'curvature, and then provides that direction, which is one of descent; with the check off it carries on.',
  ['inputs', 'configurations'],
  'all symmetric matrices, right-hand sides, guesses and preconditioners of size up to 3, up to 2 steps',
  'Tests only have positive definite matrices and look at the final solution.',
  [CG], [('directions and curvature', CG + ': solve')])

P('K07', 'CG histories are those of its iterates',
  'With histories on, CG keeps one residual norm, one residual and one iterate per iteration, starting with the '
  'guess and ending with the returned solution, and each of them belongs to the others: norm and residual are those '
  'of the iterate. Vectors are not kept unless asked for.',
  ['inputs', 'configurations'], 'all symmetric matrices, right-hand sides, guesses and preconditioners of size up '
  'to 3, up to 2 steps',
  'Tests never ask for histories; entries that alias each other or lag by one are invisible otherwise.',
  [CG], [('histories', CG + ': solve')])

P('K08', 'Nothing is done when the guess is good enough',
  'With a zero right-hand side, or a guess (zero by default) whose residual norm is within the tolerance, CG, CGS, '
  'Bi-CGSTAB and TFQMR return that guess at once, converged, without products other than the one the guess needs.',
  ['inputs', 'configurations'], 'all matrices, guesses and tolerances of size up to 3, real and complex',
  'Tests never start at the solution, where a method must not divide by its zero residual.',
  FOUR, [('first stopping test', '%s, %s, %s, %s: solve' % (CG, CGS, BI, TF))])

P('K09', 'Complex systems are solved like real ones',
  'For complex matrices (Hermitian ones for CG), right-hand sides and guesses, the reported residual norms are those '
  'of the returned solution and the methods solve nonsingular systems within n (CG) or 2n products.',
  ['inputs'], 'all complex systems of size up to 2, up to 2 products, executions without breakdown',
  'Tests have no complex system; a missing conjugation is invisible for real ones.',
  FOUR, [('inner products', '%s, %s, %s, %s: solve' % (CG, CGS, BI, TF))])

P('M01', 'MINRES iterates have minimal residual, and its residual norms are true',
  'After k steps, the residual b - (A - shift I)x of the MINRES iterate is orthogonal to the operator times the '
  'Krylov space of dimension k, so that no other element of that space has a smaller one (in the norm of the '
  'preconditioner); n steps solve the system. The residual norms it reports are those of its iterates and never grow, '
  'and its histories are consistent.',
  ['inputs', 'configurations'],
  'all nonsingular symmetric systems with any shift and positive definite preconditioner of size up to 2, and of '
  'size 3 from the condensed (tridiagonal) form; up to 3 steps',
  'Tests only solve definite systems to convergence; sign errors in rotations, shifts and preconditioners need '
  'indefinite shifted systems stopped early.',
  [MR], [('Lanczos process and rotations', MR + ': Minres.solve')])

P('M02', 'MINRES stops when it says, and its status is true',
  'MINRES never takes more steps than its limit, counts its products, and the reason it gives for stopping holds: '
  'residual below the tolerance times its estimates of norms, residual of the least-squares problem below it, limit '
  'reached. It claims convergence only in the first two cases, and its truncated error test stops exactly when the '
  'last iterates are within the tolerance. When it reaches its limit, none of its tests was met before.',
  ['inputs', 'configurations'],
  'all nonsingular symmetric systems of size up to 2 (size 3 in condensed form), all limits up to 3, all tolerances '
  'in [0,1], shifts and preconditioners',
  'Tests use one tolerance and never look at the status.',
  [MR], [('stopping tests', MR + ': Minres.solve')])

P('M03', 'SYMMLQ solves symmetric systems and reports true norms and status',
  'With the default limit SYMMLQ solves (A - shift I)x = b. The residual and solution norms it reports are those of '
  'the solution it returns, whose residual is orthogonal to the Krylov space; it makes no more products than its limit '
  'and a final one, reports their number, and its status (converged or not, and why) is true. The norm of the operator '
  'used in its test on rtol is the Frobenius norm over the Krylov space.',
  ['inputs', 'configurations'],
  'all nonsingular symmetric systems with any shift, tolerance, limit and positive definite preconditioner of size '
  'up to 2, and of size 3 from the condensed form',
  'Tests run definite systems to convergence with one tolerance; the transfer from the LQ to the CG point and the '
  'estimates of norms differ only on other systems and limits.',
  [SY], [('Lanczos process, LQ factorization, CG point', SY + ': Symmlq.solve')])

P('M04', 'MINRES and SYMMLQ handle special systems, and leave their inputs alone',
  'A zero right-hand side gives zero at once; a right-hand side that is an eigenvector is solved in one step; '
  'an indefinite preconditioner is reported; the symmetry check never rejects a symmetric operator; integer '
  'right-hand sides are as good as floats. Inputs are left untouched and a solver object can be used again, also for '
  'another system, with the result a new one would give.',
  ['inputs', 'histories', 'configurations'],
  'all symmetric operators, right-hand sides, shifts, diagonal and dense preconditioners of size up to 2 (3 in '
  'condensed form), sequences of two solves',
  'Tests have generic systems only, one per solver object: exact breakdowns and state that survives a solve are out '
  'of their reach.',
  [MR, SY], [('early exits', '%s, %s: solve' % (MR, SY))])

P('M05', 'Operators and preconditioners a symmetric method cannot use are refused',
  'MINRES and SYMMLQ asked to check their input report an operator that is clearly not symmetric (istop 7, 6), and '
  'a preconditioner that is not (8, 7), take no step, return zero and do not claim convergence; a preconditioner '
  'whose indefiniteness shows only after some steps is reported (9, 8) and its result never called converged. CG '
  'asked to check symmetry logs an error for such an operator, is not converged and leaves no result, nor one of an '
  'earlier solve; for a symmetric operator the check changes no result.',
  ['inputs', 'histories', 'configurations'],
  'multiples of the identity plus a skew part of any size from 1 to 4 (n=2, 3), right-hand sides that meet that part, with '
  'and without shift and preconditioner, indefinite diagonal preconditioners n<=3',
  'Tests give the methods what they are made for; a refusal that is overwritten by a later status shows only for '
  'right-hand sides with which the process ends at once.',
  [MR, SY, CG], [('checks of the input', '%s, %s, %s: solve' % (MR, SY, CG))])

P('S01', 'LSQR minimises the (damped, weighted) residual over Krylov spaces',
  "After k steps, the gradient A'M(b - Ax) - damp^2 N^-1 x of the LSQR iterate is orthogonal to the Krylov space of "
  'dimension k in which the iterate lies, for any damping and any weights M and N; after n steps it is zero and x solves '
  'the least-squares problem.',
  ['inputs', 'configurations'],
  'all matrices A up to 2x2 and all of size up to 3x3 in condensed (lower bidiagonal) form, all right-hand sides, '
  'dampings and positive definite weights; up to 3 steps',
  'The repository has no test for these methods at all.',
  [LSQR], [('bidiagonalisation and rotations', LSQR + ': LSQRFramework.solve')])

P('S02', 'LSQR reports true norms and variances',
  "LSQR's r1norm, r2norm, xnorm and Arnorm are the norm of the residual, of the damped residual, of the solution and "
  'of the gradient of its solution, in the norms of the weights; its histories end with them and residuals never grow. '
  "The variances it computes are the diagonal of the inverse of A'A + damp^2 I once all steps are taken. Its estimates "
  'of the norm and condition of the damped problem are those of the bidiagonal matrix of its steps (Anorm^2 the sum of '
  'the squares of its entries and of the damping of each step).',
  ['inputs', 'configurations'],
  'all matrices up to 3x3 in condensed form, right-hand sides, dampings and weights; up to 3 steps',
  'The repository has no test for these methods; recurrences for norms are wrong by one step or one factor only in '
  'damped or weighted problems.',
  [LSQR], [('recurrences for norms and variances', LSQR + ': LSQRFramework.solve')])

P('S03', 'LSMR minimises the gradient over Krylov spaces',
  "After k steps, no element of the Krylov space of dimension k has a smaller gradient A'M(b - Ax) - damp^2 N^-1 x, "
  'in the norm of N, than the LSMR iterate, for any damping and (without damping or with it) any weights; '
  'after n steps the gradient is zero.',
  ['inputs', 'configurations'],
  'all matrices A up to 2x2 (condensed form when damped) and up to 3x3 in condensed form, all right-hand sides, '
  'dampings and positive definite weights; up to 3 steps',
  'The repository has no test for these methods.',
  [LSMR], [('bidiagonalisation and rotations', LSMR + ': LSMRFramework.solve, symOrtho')])

P('S04', 'LSMR reports true norms',
  'The norms LSMR returns and records (of the damped residual, of the gradient, of the solution) are those of the '
  'solution it returns; what it returns is what it records; its histories end with these norms and gradients never '
  'grow. Its estimate of the norm of the operator is that of the bidiagonal matrix of its steps; its estimate of the '
  'condition is the ratio of the largest and the smallest pivot, 1 after one step whatever the scale.',
  ['inputs', 'configurations'],
  'all matrices up to 3x3 in condensed form, right-hand sides, dampings and weights; up to 3 steps',
  'The repository has no test for these methods; norms come from recurrences that share nothing with the iterate.',
  [LSMR], [('recurrences for norms', LSMR + ': LSMRFramework.solve')])

P('S05', 'LSQR and LSMR stop when they say, and only then claim optimality',
  'They never take more steps than the limit; the reason they give for stopping holds (residual or gradient below '
  'tolerance, condition number above its limit, zero is the solution, limit reached); they claim an optimal solution exactly '
  'for the reasons that make it one. The test on the truncated direct error stops them exactly when the last iterates '
  'are within the tolerance in the energy norm. When they reach the limit none of their other tests is met, and the '
  'status LSQR reports in words is the one of its reason.',
  ['inputs', 'configurations'],
  'all matrices up to 2x2 (3x3 in condensed form for the error test), right-hand sides, dampings, weights, tolerances in [0,1], '
  'condition limits and step limits up to 2 (3)',
  'The repository has no test for these methods.',
  [LSQR, LSMR], [('stopping tests', '%s, %s: solve' % (LSQR, LSMR))])

P('S06', 'CRAIG solves the symmetric quasi-definite system',
  "At each step of CRAIG x = N A'r, and the residual b - (M^-1 + A N A')r is orthogonal to the Krylov space of the "
  'next dimension; after enough steps r and x solve the system [M^-1 A; A\' -N^-1][r; x] = [b; 0], that is, the '
  'regularised least-squares problem. Its iterates are recorded faithfully.',
  ['inputs', 'configurations'],
  'all matrices up to 2x2 and up to 3x3 in condensed form, right-hand sides and positive definite weights; up to 3 '
  'steps. Known finding: damp other than 1 is ignored',
  'The repository has no test for these methods.',
  [CRAIG], [('bidiagonalisation and rotations', CRAIG + ': CRAIGFramework.solve')])

P('S07', 'CRAIG-MR minimises the residual of the dual system',
  "After k steps, the residual b - (M^-1 + A N A')r of the CRAIG-MR iterate is minimal, in the norm of M, over the "
  'Krylov space of dimension k, and m steps solve the system, for any weights.',
  ['inputs', 'configurations'],
  'all matrices up to 2x2 (one step) and up to 3x3 in condensed form, right-hand sides and positive definite weights; '
  'up to 3 steps',
  'The repository has no test for these methods.',
  [CRMR], [('bidiagonalisation and rotations', CRMR + ': CRAIGMRFramework.solve')])

P('S08', 'Least-squares methods handle special problems and leave their inputs alone',
  'LSQR, LSMR, CRAIG and CRAIG-MR return zero for a zero right-hand side (and LSQR and LSMR, claiming optimality, for '
  'one orthogonal to the range), return the solution when the bidiagonalisation ends early, whatever further steps are allowed, '
  'and treat integer right-hand sides like floats. Inputs are left untouched and a solver object can be used again, '
  'also after another right-hand side, with the result a new one would give.',
  ['inputs', 'histories', 'configurations'],
  'all problems of size up to 2x2, 3x2 and 2x3 in condensed form, all positions at which the bidiagonalisation can end, damped '
  'or not, sequences of two solves',
  'The repository has no test for these methods.',
  [LSQR, LSMR, CRAIG, CRMR], [('early exits', 'pykrylov/lls/*.py: solve')])

P('S09', 'CRAIG and CRAIG-MR report true energy norms and stop when they say',
  "The squared norms CRAIG and CRAIG-MR record for each iterate are the squared energy norms of that iterate (those of "
  "CRAIG also the objective |r|^2 in the norm of M^-1 plus |x|^2 in that of N^-1, whose root is r2norm), and the residuals "
  "CRAIG-MR records are the norms of b - (M^-1 + A N A')r. The estimates of the direct error are the energy norm of the "
  "last `window` updates relative to that of the iterate, one for each step once the window is full; the methods stop at the first "
  "estimate below etol or at the limit, whichever comes first, never later, say which, and claim an optimal solution "
  "in the first case and not in the second.",
  ['inputs', 'configurations'],
  'all matrices up to 2x2 and 2x3 in condensed form, right-hand sides, weights, tolerances in [0,1] and limits up to 2; '
  'fixed matrices up to 8x7 with any positive multiple of a right-hand side, windows 1, 2 and 5, tolerances and limits up to 7. '
  'Known finding: the test on btol of CRAIG compares the wrong quantity',
  'The repository has no test for these methods.',
  [CRAIG, CRMR], [('energy norms and stopping tests', '%s, %s: solve' % (CRAIG, CRMR))])

P('S10', 'Single equations are solved like any others',
  'With a right-hand side of length one (one equation in one or more unknowns), LSQR, LSMR, CRAIG and CRAIG-MR have '
  'the guarantees they have for larger problems: minimal and true residuals and gradients, true norms, weights, '
  'damping, zero and integer right-hand sides, ends of the bidiagonalisation and reuse.',
  ['inputs', 'configurations'],
  'one equation in up to three unknowns, damped, weighted, up to two steps',
  'The repository has no test for these methods.',
  [LSQR, LSMR, CRAIG, CRMR], [('squeezed right-hand sides', 'pykrylov/lls/*.py: solve')])

P('R01', 'A solver object solves its next problem as a new one would',
  'After any earlier solve (converged or not, with options such as a guess, shift, damping or stored histories) a '
  'solver of any of the ten methods solves the next problem as a newly created solver does: the solution, the '
  'residual norms and histories, the counts, the convergence flag, the status and every other public result are '
  'equal, so nothing of the earlier solve is left over.',
  ['histories', 'inputs'], 'two solves, the first with a fixed right-hand side, the second with any; sizes up to 3',
  'No test solves twice with one object.',
  FOUR + [MR, SY, LSQR, LSMR, CRAIG, CRMR],
  [('initialisation of results and histories', 'solve of each method')])

P('R02', 'Printing, logging, storing and checking change no result',
  'Turning on the printed log, passing a logger, storing residuals or iterates, or checking an operator that is '
  'symmetric changes nothing but what is stored: solution, norms, counts, status and every other public result of '
  'any of the ten methods equal those of a quiet solve with the same arguments, and (checks apart) the same products '
  'are made.',
  ['inputs', 'configurations'], 'all systems in condensed form up to size 3, up to 3 steps',
  'Tests run each solver in one configuration of these options.',
  FOUR + [MR, SY, LSQR, LSMR, CRAIG, CRMR],
  [('reporting inside the iteration', 'solve of each method: show, logger, store_resids, store_iterates, check')])

P('R03', 'Options left out take their documented values',
  'A solve in which options are left out gives in every public result what the same solve gives with the documented '
  '(or signature) values written out: product limits 2n (SYMMLQ 2n+2), iteration limits 5n (MINRES), 3n (LSQR, CRAIG) and '
  'min(m,n) (LSMR, CRAIG-MR), tolerances of each method, zero guess, no damping, shift, weights, checks or histories; for LSMR '
  'None stands for no damping, tolerances of 1e-6 and a condition limit of 1e8.',
  ['inputs', 'configurations'],
  'right-hand sides and matrices up to size 2, and operators that never converge, so that limits are reached',
  'Tests converge long before a limit and do not compare with explicit values.',
  FOUR + [MR, SY, LSQR, LSMR, CRAIG, CRMR], [('reading of options', 'solve of each method, KrylovMethod.__init__')])

P('R04', 'A method sees the matrix of its operator, not how the operator was built',
  'Each method gives every public result (solution, norms, histories, status, counts), makes as many products and '
  'leaves the counter of the operator where it would be, whether its operator is a plain one or is built as a block, '
  'reduced, coordinate or array operator, a sum, difference, negative, multiple, quotient, product, transpose or '
  'adjoint with the same matrix, and whether its preconditioner or weight is a plain operator, a diagonal, block-'
  'diagonal or block preconditioner, or a limited-memory BFGS operator.',
  ['inputs', 'configurations'],
  'condensed matrices of size 2 (3x2 and 2x3 for least squares; thorough 3), scaled families of size 4; up to 6 products',
  'Tests run the methods on one kind of operator each.',
  FOUR + [MR, SY, LSQR, LSMR, CRAIG, CRMR, LINOP, BLK, LB], [('use of operators', 'products with operators, transposes and preconditioners in solve of each method')])

P('R05', 'A longer solve begins as a shorter one',
  'The same system solved with a smaller and a larger limit of iterations: every stored history of the shorter solve '
  'is the beginning of that of the longer one, and the iterate a longer solve stores for an iteration is the solution '
  'a solve stopped after that iteration returns, with the residual norm recorded there.',
  ['inputs', 'histories', 'configurations'],
  'ten methods, symbolic systems of size up to 3 and scaled families of order up to 8, up to 14 products or 7 steps',
  'No test runs a method twice with different limits; histories overwritten by later iterations, or results that depend '
  'on where the limit is, are invisible in a single run.',
  FOUR + [MR, SY, LSQR, LSMR, CRAIG, CRMR], [('loops and histories', 'solve of each method')])

P('U01', 'roots_quadratic finds the real roots of every quadratic',
  'For all real coefficients it returns two roots when the discriminant is nonnegative, none when it is negative, the '
  'root of a linear function, [0] for the zero function. The roots are exact (in exact arithmetic) when the quadratic is well conditioned, '
  'and otherwise leave a value of at most the tolerance times the constant coefficient after refinement.',
  ['inputs'], 'all coefficients, all tolerances up to 1/8, up to 2 refinements',
  'The repository has no test for it; sign cases of coefficients and the boundary between the two formulas are what matters.',
  [TOOLS], [('case distinction, refinement', TOOLS + ': roots_quadratic')])

P('U02', 'Checks of symmetry and definiteness answer for their random vectors',
  'check_symmetric accepts every symmetric operator and check_positive_definite every positive definite one '
  '(semidefinite one, if asked), whatever random vectors they draw; both reject rectangular operators. They accept an '
  'operator only if all the vectors drawn pass the test they document.',
  ['inputs', 'schedules'],
  'all operators of size up to 3 (2 for the converse), all random vectors with entries in [0,1], up to 10 repeats',
  'The repository has no test for them, and one run tries one sequence of random vectors.',
  [TOOLS], [('sampling and tests', TOOLS + ': check_symmetric, check_positive_definite')])

P('U03', 'The Poisson operators of the gallery are the Poisson matrices',
  'Poisson1dMatvec and Poisson2dMatvec return the product of the tridiagonal (2, -1) matrix and of the five-point (4, -1) matrix on '
  'a square grid with any vector, without changing it.',
  ['inputs'], 'all real, complex and integer vectors; 1D sizes up to 8, grids up to 5x5',
  'The tests use them with one vector and through a solver that tolerates a slightly different matrix; boundary blocks are the risk.',
  [GAL], [('slices of blocks', GAL + ': Poisson1dMatvec, Poisson2dMatvec')])

P('F01', 'Computed residual norms stay close to true ones despite rounding',
  'In floating-point arithmetic, the residual norm that an iterative method reports differs from that of the solution '
  'it returns by a modest multiple of the machine precision times the condition of the system, so that the documented '
  'tolerances mean what they say also for large systems and many iterations.',
  ['inputs'], 'all systems of any size in double precision',
  'Tests accept loose tolerances on small well-conditioned systems.',
  FOUR + [MR, SY, LSQR, LSMR], [('recurrences', 'pykrylov/*/*.py: solve')])
NOT_APPLICABLE.append(('F01', 'bit-precise floating-point reasoning about several iterations with inner products, '
                       'divisions and square roots is far out of reach of the solvers (QF_FP), and the bounds one '
                       'would state depend on condition numbers; all other properties are decided in exact real arithmetic'))
