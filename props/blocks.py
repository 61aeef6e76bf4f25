"""Block operators."""
from ._util import *
from .linop import source, check_all

MODS = ['pykrylov.linop']


def assemble(h, rows, dtype='D'):
    "dense matrix of a list of lists of matrices"
    m = sum(r[0].shape[0] for r in rows)
    n = sum(B.shape[1] for B in rows[0])
    M = h.zeros((m, n), dtype)
    i = 0
    for r in rows:
        j = 0
        for B in r:
            M[i:i + B.shape[0], j:j + B.shape[1]] = B
            j += B.shape[1]
        i += r[0].shape[0]
    return M


def grid(h, heights, widths, dtypes, kinds, tag='B'):
    "a grid of operators and their matrices"
    ops, mats = [], []
    k = 0
    for i, m in enumerate(heights):
        ro, rm = [], []
        for j, n in enumerate(widths):
            kd = kinds[k % len(kinds)]
            if m != n and kd in ('sym', 'diag', 'ident', 'herm'):
                kd = 'both'
            o, M = source(h, kd, dtypes[k % len(dtypes)], m, n, '%s%d%d' % (tag, i, j))
            if M.shape != (m, n):
                o, M = source(h, 'both', dtypes[k % len(dtypes)], m, n, '%s%d%d' % (tag, i, j))
            ro.append(o)
            rm.append(M)
            k += 1
        ops.append(ro)
        mats.append(rm)
    return ops, mats


def verify(h, label, op, M, dtype='d', deep=True, words=('', 'T', 'H', 'C', 'TT', 'HT')):
    h.claim(label + ' shape', tuple(op.shape) == M.shape)
    for w in words if deep else ('', 'T', 'H'):
        o, N = word(h, op, M, w)
        if o is None:
            h.claim('%s .%s exists' % (label, w), False)
            continue
        for dt in (dtype, 'd' if dtype in 'FD' else 'D'):
            v = h.vec('v' + w + ('' if dt == dtype else dt), N.shape[1], dt)
            h.eq('%s .%s on %s' % (label, w, dt), o * v, h.np.dot(N, v))
    if deep:
        h.eq(label + ' array', op.to_array(), M)


# ----------------------------------------------------------------------- B01 block action

def t_block(h, heights, widths, dtypes, kinds):
    ops, mats = grid(h, heights, widths, dtypes, kinds)
    op = LO(h).BlockLinearOperator(ops)
    verify(h, 'block', op, assemble(h, mats), 'D' if 'D' in dtypes else 'd')


def t_block_nested(h, dtype):
    L = LO(h)
    ops, mats = grid(h, (2, 1), (1, 2), (dtype,), ('both', 'sym'))
    inner = L.BlockLinearOperator(ops)
    A = assemble(h, mats)
    o2, m2 = grid(h, (3,), (2,), (dtype,), ('both',), 'C')
    o3, m3 = grid(h, (1,), (3, 2), ('d',), ('both',), 'D')
    op = L.BlockLinearOperator([[inner, o2[0][0]], o3[0]])
    verify(h, 'nested', op, assemble(h, [[A, m2[0][0]], m3[0]]), dtype)
    P = inner * inner + L.IdentityOperator(3)
    np = h.np
    verify(h, 'expression with blocks', P, np.dot(A, A) + np.eye(3), dtype, deep=False)


def t_block_sym(h, sizes, dtype, flag):
    "only the upper triangle is given"
    np = h.np
    L = LO(h)
    k = len(sizes)
    upper, full = [], [[None] * k for _ in range(k)]
    for i in range(k):
        row = []
        for j in range(i, k):
            if i == j:
                kd = ('sym' if flag == 'symmetric' else 'herm')
                A = h.mat('D%d' % i, sizes[i], sizes[i], dtype, kd)
                o = wrap(h, A, 'symherm' if dtype == 'd' else ('symH' if kd == 'sym' else 'hermT'))
            else:
                A = h.mat('B%d%d' % (i, j), sizes[i], sizes[j], dtype)
                o = wrap(h, A, 'both')
            full[i][j] = A
            if i != j:
                full[j][i] = A.T if flag == 'symmetric' else A.T.conj()
            row.append(o)
        upper.append(row)
    given = [list(r) for r in upper]
    op = L.BlockLinearOperator(upper, **{flag: True})
    M = assemble(h, full)
    h.claim('flag', bool(getattr(op, flag)))
    verify(h, flag, op, M, dtype)
    # the caller's description is left alone, and serves again
    h.claim('lists intact', [len(r) for r in upper] == [len(r) for r in given]
            and all(a is b for r, s in zip(upper, given) for a, b in zip(r, s)))
    again = L.BlockLinearOperator(upper, **{flag: True})
    verify(h, 'built again', again, M, dtype, deep=False)


def t_block_aliases(h, dtype):
    "the preconditioner classes solve by multiplying"
    L = LO(h)
    ops, mats = grid(h, (1, 2), (2, 1), (dtype,), ('both',))
    P = h.mod('pykrylov.linop.blkop').BlockPreconditioner(ops)
    M = assemble(h, mats)
    v = h.vec('v', 3, dtype)
    h.eq('solve', P.solve(v), h.np.dot(M, v))
    h.eq('mul', P * v, h.np.dot(M, v))
    A, B = h.mat('A', 2, 2, dtype), h.mat('E', 1, 1, dtype)
    D = h.mod('pykrylov.linop.blkop').BlockDiagonalPreconditioner([wrap(h, A), wrap(h, B)])
    z = h.zeros((2, 1)), h.zeros((1, 2))
    N = assemble(h, [[A, z[0]], [z[1], B]])
    h.eq('diagonal solve', D.solve(v), h.np.dot(N, v))
    h.eq('diagonal mul', D * v, h.np.dot(N, v))


@prop('B01', MODS)
def b01(tier):
    b = 'up to 3x3 blocks of up to 3x3 (thorough: 4 block rows), entries symbolic'
    K = ('both', 'sym', 'T', 'diag', 'H', 'ndarray')
    shapes = [((2,), (1, 2)), ((1, 2), (2,)), ((1, 2), (2, 1)), ((2, 1), (1, 3)), ((1, 1, 2), (2, 1)), ((2, 2), (2, 2)),
              ((1, 2, 1), (1, 2, 1)), ((1, 1), (1, 1, 1)), ((3,), (3,))]
    if tier == 'thorough':
        shapes += [((3, 2), (2, 3, 1)), ((1, 2, 3, 1), (1, 2)), ((2, 2, 2), (2, 2, 2)), ((3, 3), (3, 3))]
    for hs, ws in shapes:
        for dts in (('d',), ('D',), ('d', 'D'), ('D', 'd', 'd')):
            yield Case('%s x %s %s' % (hs, ws, ''.join(dts)), t_block, bound=b, heights=hs, widths=ws, dtypes=dts, kinds=K)
    for dt in 'dD':
        yield Case('nested %s' % dt, t_block_nested, bound=b, dtype=dt)
        yield Case('aliases %s' % dt, t_block_aliases, bound=b, dtype=dt)
        for flag in ('symmetric', 'hermitian'):
            for s in ((2, 2), (2, 1), (1, 2, 1), (2, 1, 2)) + (((1, 2, 1, 2),) if tier == 'thorough' else ()):
                yield Case('%s %s %s' % (flag, s, dt), t_block_sym, bound=b, sizes=s, dtype=dt, flag=flag)


# ---------------------------------------------------------------- B02 access and assignment

def t_index(h, dtype):
    L = LO(h)
    ops, mats = grid(h, (1, 2, 1), (2, 1, 1), (dtype,), ('both', 'T'))
    op = L.BlockLinearOperator(ops)
    for i in range(-3, 3):
        for j in range(-3, 3):
            h.claim('block %d,%d' % (i, j), op[i, j] is ops[i][j])
    sl = [(slice(0, 2), slice(1, 3)), (slice(None), slice(0, 1)), (slice(1, None), slice(None)),
          (slice(None, None, 2), slice(2, None)), (slice(None, None, -1), slice(None))]
    for s, t in sl:
        sub = op[s, t]
        verify(h, 'slice %s %s' % (s, t), sub, assemble(h, [r[t] for r in mats[s]]), dtype, deep=False)
    verify(h, 'row 1', op[1, :], assemble(h, [mats[1]]), dtype, deep=False)
    verify(h, 'rows 0:2', op[0:2], assemble(h, mats[0:2]), dtype, deep=False)
    verify(h, 'col 2', op[:, 2], assemble(h, [[r[2]] for r in mats]), dtype, deep=False)
    for i in range(3):
        for j in range(3):
            h.claim('contains', ops[i][j] in op)
    h.claim('does not contain', L.IdentityOperator(2) not in op)
    rows = list(op)
    h.claim('iterates over block rows', len(rows) == 3 and all(len(r) == 3 for r in rows)
            and all(a is c for r, s in zip(rows, ops) for a, c in zip(r, s)))
    h.claim('blocks', all(a is c for r, s in zip(op.blocks, ops) for a, c in zip(r, s)))


def t_assign(h, dtype, how):
    "after assigning blocks the operator, its transpose and adjoint are those of the new blocks"
    np = h.np
    L = LO(h)
    hs, ws = (1, 2), (2, 1)
    ops, mats = grid(h, hs, ws, (dtype,), ('both',))
    op = L.BlockLinearOperator(ops)
    T, H = op.T, op.H
    for step in range(2):
        i = pick(h, 'row%d' % step, [0, 1])
        j = pick(h, 'col%d' % step, [0, 1])
        A = h.mat('N%d' % step, hs[i], ws[j], dtype)
        new = wrap(h, A, how)
        op[i, j] = new
        mats[i][j] = A
        h.claim('stored', op[i, j] is new)
        h.claim('contained', new in op)
    M = assemble(h, mats)
    verify(h, 'assigned', op, M, dtype)
    v, w = h.vec('v', hs[0] + hs[1], dtype), h.vec('w', hs[0] + hs[1], dtype)
    h.eq('transpose obtained earlier', T * v, np.dot(M.T, v))
    h.eq('adjoint obtained earlier', H * w, np.dot(M.T.conj(), w))
    h.claim('the list given at construction is not changed', all(len(r) == 2 for r in ops))


def t_assign_sym(h, dtype, flag):
    np = h.np
    L = LO(h)
    sizes = (1, 2, 1)
    sym = flag == 'symmetric'

    def diag(name, k):
        A = h.mat(name, k, k, dtype, 'sym' if sym else 'herm')
        return wrap(h, A, 'symherm' if dtype == 'd' else ('symH' if sym else 'hermT')), A
    up, mats = [], [[None] * 3 for _ in range(3)]
    for i in range(3):
        row = []
        for j in range(i, 3):
            if i == j:
                o, A = diag('D%d' % i, sizes[i])
            else:
                A = h.mat('B%d%d' % (i, j), sizes[i], sizes[j], dtype)
                o = wrap(h, A, 'both')
            mats[i][j] = A
            row.append(o)
        up.append(row)
    op = L.BlockLinearOperator(up, **{flag: True})
    i, j = pick(h, 'where', [(0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)])
    if i == j:
        new, A = diag('N', sizes[i])
    else:
        A = h.mat('N', sizes[i], sizes[j], dtype)
        new = wrap(h, A, 'both')
    op[i, j] = new
    mats[i][j] = A
    for i in range(3):
        for j in range(i):
            mats[i][j] = mats[j][i].T if sym else mats[j][i].T.conj()
    verify(h, 'assigned', op, assemble(h, mats), dtype)


def t_assign_bad(h):
    "a block that does not fit is refused and changes nothing"
    np = h.np
    L = LO(h)
    err = (ValueError, L.ShapeError, TypeError)
    ops, mats = grid(h, (2, 2), (2, 2), ('d',), ('both',))
    op = L.BlockLinearOperator(ops)

    def put(o, k, v):
        o[k] = v
    for shp in ((1, 2), (2, 1), (3, 2), (1, 1)):
        B = wrap(h, h.mat('X', *shp))
        h.raises('block of shape %s' % (shp,), err, lambda: put(op, (0, 1), B))
        verify(h, 'unchanged', op, assemble(h, mats), deep=False)
    A = h.mat('S', 2, 2, 'd', 'sym')
    C = h.mat('C', 2, 2, 'd', 'sym')
    B = h.mat('B', 2, 2)
    sop = L.BlockLinearOperator([[wrap(h, A, 'symherm'), wrap(h, B)], [wrap(h, C, 'symherm')]], symmetric=True)
    X = h.mat('Y', 2, 2)
    h.raises('unsymmetric block on the diagonal', err, lambda: put(sop, (1, 1), wrap(h, X)))
    verify(h, 'symmetric unchanged', sop, assemble(h, [[A, B], [B.T, C]]), deep=False)
    F = h.mat('F', 2, 2, 'D', 'herm')
    G = h.mat('G', 2, 2, 'D')
    hop = L.BlockLinearOperator([[wrap(h, F, 'herm'), wrap(h, G)], [wrap(h, F, 'herm')]], hermitian=True)
    S = h.mat('Z', 2, 2, 'D', 'sym')
    for bad in (wrap(h, h.mat('V', 2, 2, 'D')), wrap(h, S, 'symH')):
        h.raises('block on the diagonal that is not Hermitian', err, lambda: put(hop, (0, 0), bad))
        verify(h, 'Hermitian unchanged', hop, assemble(h, [[F, G], [G.T.conj(), F]]), 'D', deep=False)


def t_assign_types(h, kind, old, new):
    "a block of another element type: the operator takes the common type, or refuses and does not change"
    np = h.np
    L = LO(h)
    fits = new not in 'FD' or old in 'FD'
    common = np.result_type(np.dtype(old), np.dtype(new))
    if kind == 'grid':
        ops, mats = grid(h, (1, 2), (2, 1), (old,), ('both',))
        op = L.BlockLinearOperator(ops)
        where = pick(h, 'where', [(1, 0), (0, 1), (1, 1), (0, 0)])
        A = h.mat('N', (1, 2)[where[0]], (2, 1)[where[1]], new)
    else:
        shapes = [(2, 1), (1, 2)]
        mats = [h.mat('A%d' % k, m, n, old) for k, (m, n) in enumerate(shapes)]
        op = L.BlockDiagonalLinearOperator([wrap(h, B) for B in mats])
        A = h.mat('N', 1, 2, new)
        where = 1
    T, H = op.T, op.H

    def put():
        op[where] = wrap(h, A)
    if not fits:
        h.raises('a complex block in a real operator', (TypeError, ValueError), put)
    else:
        put()
        if kind == 'grid':
            mats[where[0]][where[1]] = A
        else:
            mats[1] = A
        h.claim('common type', np.dtype(op.dtype) == common)
    M = assemble(h, mats, 'D' if old in 'FD' or (fits and new in 'FD') else 'd') if kind == 'grid' else dgrid(h, mats)
    for dt in 'dD' if fits else 'd':
        for name, o, N in (('', op, M), ('T', op.T, M.T), ('H', op.H, M.T.conj()), ('earlier T', T, M.T),
                           ('earlier H', H, M.T.conj())):
            v = h.vec('v' + name + dt, N.shape[1], dt)
            y = o * v
            h.eq('%s with %s' % (name, dt), y, np.dot(N, v))
            if fits:
                h.claim('type of %s with %s' % (name, dt), y.dtype == np.result_type(common, np.dtype(dt)))


TYPES = [('i', 'd'), ('d', 'i'), ('f', 'd'), ('d', 'D'), ('F', 'D'), ('D', 'd'), ('i', 'D'), ('f', 'f')]


@prop('B02', MODS)
def b02(tier):
    b = '3x3 blocks, every index, slices; every pair of assignments to 2x2 blocks, every one to symmetric 3x3 blocks'
    for dt in 'dD':
        yield Case('index %s' % dt, t_index, bound=b, dtype=dt)
        for how in ('both', 'T', 'H'):
            yield Case('assign %s %s' % (dt, how), t_assign, bound=b, dtype=dt, how=how)
        for f in ('symmetric', 'hermitian'):
            yield Case('assign %s %s' % (f, dt), t_assign_sym, bound=b, dtype=dt, flag=f)
    yield Case('refused', t_assign_bad, bound=b)
    for old, new in TYPES:
        yield Case('assign %s to %s' % (new, old), t_assign_types, bound=b, kind='grid', old=old, new=new)


# -------------------------------------------------------------------- B03 block diagonal

def dgrid(h, mats):
    "assemble a block diagonal matrix"
    rows = []
    for i, A in enumerate(mats):
        rows.append([A if i == j else h.zeros((A.shape[0], B.shape[1])) for j, B in enumerate(mats)])
    return assemble(h, rows)


def t_bdiag(h, specs):
    L = LO(h)
    ops, mats = [], []
    for k, (kind, dt, m, n) in enumerate(specs):
        o, A = source(h, kind, dt, m, n, 'A%d' % k)
        ops.append(o)
        mats.append(A)
    op = L.BlockDiagonalLinearOperator(ops)
    dt = 'D' if any(s[1] == 'D' for s in specs) else 'd'
    verify(h, 'block diagonal', op, dgrid(h, mats), dt)
    h.claim('symmetric', bool(op.symmetric) == all(bool(o.symmetric) for o in ops))
    for i, o in enumerate(ops):
        h.claim('block', op[i] is o and op[i - len(ops)] is o)
    for s in (slice(0, 2), slice(1, None), slice(None, None, -1)):
        if len(ops[s]):
            verify(h, 'slice %s' % s, op[s], dgrid(h, mats[s]), dt, deep=False)
    h.claim('contains', all(o in op for o in ops))
    h.claim('blocks', all(a is c for a, c in zip(op.blocks, ops)))


def t_bdiag_assign(h, dtype, kinds, caller):
    np = h.np
    L = LO(h)
    shapes = [(2, 1), (1, 2), (2, 2)]
    ops, mats = [], []
    for k, (m, n) in enumerate(shapes):
        A = h.mat('A%d' % k, m, n, dtype)
        ops.append(wrap(h, A, kinds))
        mats.append(A)
    given = list(ops)
    op = L.BlockDiagonalLinearOperator(ops)
    T, H = op.T, op.H
    for step in range(2):
        i = pick(h, 'i%d' % step, [0, 1, 2])
        A = h.mat('N%d' % step, shapes[i][0], shapes[i][1], dtype)
        new = wrap(h, A, kinds)
        if caller:
            # the caller goes on using the list it gave: no effect here
            ops[i] = new
        else:
            op[i] = new
            mats[i] = A
            h.claim('stored', op[i] is new)
    M = dgrid(h, mats)
    verify(h, 'assigned', op, M, dtype)
    v, w = h.vec('v', M.shape[0], dtype), h.vec('w', M.shape[0], dtype)
    h.eq('earlier transpose', T * v, np.dot(M.T, v))
    h.eq('earlier adjoint', H * w, np.dot(M.T.conj(), w))
    if not caller:
        h.claim('caller list intact', all(a is c for a, c in zip(ops, given)))


def t_bdiag_slice_assign(h, dtype):
    L = LO(h)
    shapes = [(2, 1), (1, 2), (2, 2)]
    mats = [h.mat('A%d' % k, m, n, dtype) for k, (m, n) in enumerate(shapes)]
    op = L.BlockDiagonalLinearOperator([wrap(h, A) for A in mats])
    new = [h.mat('N%d' % k, m, n, dtype) for k, (m, n) in enumerate(shapes[1:])]
    op[1:] = [wrap(h, A) for A in new]
    verify(h, 'assigned', op, dgrid(h, mats[:1] + new), dtype)


def t_bdiag_sym(h, dtype):
    "symmetric block diagonal: assignment keeps transposes right, or is refused"
    L = LO(h)
    flagkind = 'symH' if dtype == 'D' else 'symherm'
    mats = [h.mat('A%d' % k, 2, 2, dtype, 'sym') for k in range(2)]
    op = L.BlockDiagonalLinearOperator([wrap(h, A, flagkind) for A in mats])
    h.claim('symmetric', bool(op.symmetric))
    i = pick(h, 'i', [0, 1])
    N = h.mat('N', 2, 2, dtype, 'sym')
    op[i] = wrap(h, N, flagkind)
    mats[i] = N
    verify(h, 'assigned', op, dgrid(h, mats), dtype)
    X = h.mat('X', 2, 2, dtype)

    def put():
        op[i] = wrap(h, X, 'both')
    h.raises('unsymmetric block', ValueError, put)
    verify(h, 'unchanged', op, dgrid(h, mats), dtype, deep=False)


def t_bdiag_bad(h):
    "what is no operator, and what is not Hermitian among Hermitian blocks, is refused and changes nothing"
    L = LO(h)
    mats = [h.mat('A%d' % k, 2, 2, 'D', 'herm') for k in range(2)]
    op = L.BlockDiagonalLinearOperator([wrap(h, A, 'herm') for A in mats])
    h.claim('Hermitian', bool(op.hermitian))

    def put(k, v):
        op[k] = v
    X, S = h.mat('X', 2, 2, 'D'), h.mat('S', 2, 2, 'D', 'sym')
    for k, v in ((0, wrap(h, X)), (1, wrap(h, S, 'symH')), (slice(0, 2), [wrap(h, mats[0], 'herm'), wrap(h, X)]),
                 (slice(0, 1), [3.0]), (slice(0, 2), [wrap(h, mats[0], 'herm'), 'block'])):
        h.raises('refused', (ValueError, TypeError), lambda: put(k, v))
        verify(h, 'unchanged', op, dgrid(h, mats), 'D', deep=False)


@prop('B03', MODS)
def b03(tier):
    b = 'up to 3 blocks of up to 3x3, square and rectangular; every pair of assignments'
    S = [[('both', 'd', 2, 2)], [('both', 'd', 2, 1), ('both', 'd', 1, 3)], [('T', 'D', 1, 2), ('H', 'D', 2, 1)],
         [('sym', 'd', 2, 2), ('diag', 'd', 2, 2)], [('herm', 'D', 2, 2), ('ident', 'd', 2, 2)],
         [('both', 'D', 2, 1), ('sym', 'd', 2, 2), ('both', 'd', 1, 1)], [('zero', 'd', 1, 2), ('both', 'd', 3, 1)],
         [('both', 'd', 1, 2), ('both', 'd', 2, 1)], [('sym', 'D', 2, 2), ('herm', 'D', 2, 2)],
         [('ndarray', 'd', 3, 2), ('coord', 'd', 1, 2), ('both', 'D', 2, 2)]]
    for i, s in enumerate(S):
        yield Case('blocks %s' % ' '.join('%s%s%dx%d' % t for t in s), t_bdiag, bound=b, specs=s)
    for dt in 'dD':
        for k in ('both', 'T', 'H'):
            yield Case('assign %s %s' % (dt, k), t_bdiag_assign, bound=b, dtype=dt, kinds=k, caller=False)
        yield Case('caller list %s' % dt, t_bdiag_assign, bound=b, dtype=dt, kinds='both', caller=True)
        yield Case('assign slice %s' % dt, t_bdiag_slice_assign, bound=b, dtype=dt)
        yield Case('symmetric %s' % dt, t_bdiag_sym, bound=b, dtype=dt)
    yield Case('bad blocks', t_bdiag_bad, bound=b)
    for old, new in TYPES:
        yield Case('assign %s to %s' % (new, old), t_assign_types, bound=b, kind='diag', old=old, new=new)


# ------------------------------------------------------------------------ B04 validation

def t_validate(h, nr, nc):
    "blocks of arbitrary shapes: accepted exactly when they tile"
    L = LO(h)
    shp, ops, mats = [], [], []
    for i in range(nr):
        rs, ro, rm = [], [], []
        for j in range(nc):
            s = (pick(h, 'm%d%d' % (i, j), [1, 2]), pick(h, 'n%d%d' % (i, j), [1, 2]))
            A = h.mat('A%d%d' % (i, j), *s)
            rs.append(s)
            ro.append(wrap(h, A))
            rm.append(A)
        shp.append(rs)
        ops.append(ro)
        mats.append(rm)
    tiles = all(s[0] == r[0][0] for r in shp for s in r) and all(
        shp[i][j][1] == shp[0][j][1] for i in range(nr) for j in range(nc))
    if tiles:
        verify(h, 'tiling blocks', L.BlockLinearOperator(ops), assemble(h, mats), deep=False)
    else:
        h.raises('blocks that do not tile', (L.ShapeError, ValueError), lambda: L.BlockLinearOperator(ops))


def t_validate_sym(h, flag):
    L = LO(h)
    err = (ValueError, L.ShapeError)
    a, b, c, d = [pick(h, x, [1, 2]) for x in 'abcd']
    A, D = h.mat('A', a, a, 'd', 'sym'), h.mat('D', d, d, 'd', 'sym')
    B = h.mat('B', b, c)
    kw = {flag: True}
    ops = [[wrap(h, A, 'symherm'), wrap(h, B)], [wrap(h, D, 'symherm')]]
    if (b, c) == (a, d):
        verify(h, 'ok', L.BlockLinearOperator(ops, **kw), assemble(h, [[A, B], [B.T, D]]), deep=False)
    else:
        h.raises('off-diagonal block does not fit', err, lambda: L.BlockLinearOperator(ops, **kw))
    X = h.mat('X', d, d)
    ops = [[wrap(h, A, 'symherm'), wrap(h, h.mat('E', a, d))], [wrap(h, X)]]
    h.raises('diagonal block without the flag', err, lambda: L.BlockLinearOperator(ops, **kw))
    h.raises('not square', err, lambda: L.BlockLinearOperator([[wrap(h, A, 'symherm'), wrap(h, h.mat('E', a, d))]], **kw))


def t_ragged(h):
    L = LO(h)
    A, B, C = [wrap(h, h.mat(x, 1, 1)) for x in 'ABC']
    err = (ValueError, L.ShapeError, TypeError)
    h.raises('ragged rows', err, lambda: L.BlockLinearOperator([[A, B], [C]]))
    h.raises('ragged rows 2', err, lambda: L.BlockLinearOperator([[A], [B, C]]))
    h.raises('flat list', err, lambda: L.BlockLinearOperator([A, B]))


@prop('B04', MODS)
def b04(tier):
    b = 'every assignment of shapes (1 or 2 rows, 1 or 2 columns) to the blocks of a grid of up to 2x2 (thorough 2x3)'
    P = lambda: Params(max_paths=1200)
    for nr, nc in ((1, 2), (2, 1), (2, 2)) + (((1, 3), (3, 1)) if tier == 'quick' else ((1, 3), (3, 1), (2, 3))):
        yield Case('%dx%d blocks' % (nr, nc), t_validate, bound=b, params=P(), nr=nr, nc=nc)
    for f in ('symmetric', 'hermitian'):
        yield Case(f, t_validate_sym, bound=b, params=P(), flag=f)
    yield Case('ragged', t_ragged, bound=b)
