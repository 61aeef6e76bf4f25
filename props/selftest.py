"""Not a property: compares the stand-in for numpy with numpy (by cross-validation).
Run: check.py SELF -v; anything listed as DIV is an error of the stand-in."""
from ._util import *

FUNCS = """
flip:            m.flip(A, 0)
take:            m.take(A, [0, 2], axis=1)
take flat:       m.take(A, [0, 5])
delete:          m.delete(A, 1, 0)
diff:            m.diff(A)
diff 0:          m.diff(A, axis=0)
kron:            m.kron(A, A[:2, :1])
kron 1:          m.kron(A[0], A[1])
block:           m.block([[A, A[:, :1]], [A[:1], A[:1, :1]]])
expand:          m.expand_dims(A, 0)
add outer:       m.add.outer(A[0], A[1])
multiply outer:  m.multiply.outer(A[0], A)
reduce:          m.add.reduce(A)
reduce 1:        m.add.reduce(A, axis=1)
reduce all:      m.add.reduce(A, axis=None)
accumulate:      m.add.accumulate(A[0])
insert:          m.insert(A[0], 1, 9.)
bincount:        m.bincount([0, 1, 1, 3], weights=A[0], minlength=6)
ix_:             A[m.ix_([0, 2], [1, 3])]
broadcast_to:    m.broadcast_to(A[0], (2, 4))
diagonal:        m.diagonal(A)
cumprod:         m.cumprod(A[0])
apply:           m.apply_along_axis(lambda v: v.sum(), 0, A)
apply 1:         m.apply_along_axis(lambda v: 2 * v, 1, A)
array_split:     m.array_split(A[0], 3)[1]
hsplit:          m.hsplit(A, 2)[1]
sum keepdims:    m.sum(A, axis=1, keepdims=True)
sum axes:        m.sum(A, axis=(0, 1))
prod 0:          m.prod(A, axis=0)
cumsum:          m.cumsum(A, axis=1)
cumsum 0:        A.cumsum(0)
einsum:          m.einsum('ij,ij->i', A, A)
einsum outer:    m.einsum('i,j->ij', A[0], A[1])
tensordot:       m.tensordot(A, A.T, 1)
tensordot axes:  m.tensordot(A, A, ([0], [0]))
matmul:          A @ A.T
multi_dot:       m.linalg.multi_dot([A, A.T, A])
reversed:        A[:, ::-1]
negative step:   A[::-2, 1:]
newaxis:         A[:, None, :] * A[None, :, :]
boolean index:   A[m.array([True, False, True])]
fancy:           A[[0, 2], [1, 3]]
where index:     m.where(m.arange(4) > 1, A[0], A[1])
clip:            m.clip(A, -1, 1)
maximum:         m.maximum(A[0], A[1])
max:             A.max()
min axis:        A.min(axis=0)
mean:            A.mean()
mean 1:          m.mean(A, axis=1)
norm:            m.linalg.norm(A)
norm 1:          m.linalg.norm(A[0], 1)
norm inf:        m.linalg.norm(A[0], m.inf)
norm axis:       m.linalg.norm(A, axis=0)
norm matrix 1:   m.linalg.norm(A, 1)
norm keepdims:    m.linalg.norm(A, axis=1, keepdims=True)
norm matrix inf: m.linalg.norm(A, m.inf)
square:          m.square(A)
hypot:           m.hypot(A[0], A[1])
copysign:        m.copysign(A[0], A[1])
sign:            m.sign(A[0, :2])
abs:             m.abs(A)
vdot:            m.vdot(A[0], A[1])
inner:           m.inner(A[0], A[1])
inner matrix:    m.inner(A, A)
outer:           m.outer(A[0], A[1])
dot method:      A.dot(A[0])
power:           A ** 2
reciprocal:      1 / (1 + A * A)
column_stack:    m.column_stack([A[0], A[1]])
vstack:          m.vstack([A, A[0]])
hstack:          m.hstack([A[0], A[1]])
concatenate:     m.concatenate([A, A], axis=1)
stack:           m.stack([A[0], A[1]], axis=1)
append:          m.append(A[0], A[1])
tile:            m.tile(A[0], 2)
repeat:          m.repeat(A[0], 2)
roll:            m.roll(A[0], 1)
triu:            m.triu(A, 1)
tril:            m.tril(A, -1)
eye:             m.eye(3, 4, k=1) * A
diag:            m.diag(A[0])
diag k:          m.diag(A[0], 1)
diag of:         m.diag(A)
trace:           m.trace(A)
full_like:       m.full_like(A, 3)
zeros_like:      m.zeros_like(A) + A
ones:            m.ones(A.shape) - A
arange:          m.arange(1, 5) * A[0]
linspace:        m.linspace(0, 1, 4) * A[0]
ravel:           A.ravel()
flatten F:       A.T.ravel()
reshape -1:      A.reshape(-1, 2)
swapaxes:        m.swapaxes(A, 0, 1)
atleast_2d:      m.atleast_2d(A[0])
squeeze:         m.squeeze(A[:1])
logical:         m.where(m.logical_and(A[0] > 0, A[0] < 5), A[0], 0)
count:           m.count_nonzero(m.array([1., 0., 2.])) * A
all:             m.all(A == A) * A
any:             m.any(A != A) * A
isfinite:        m.isfinite(A).all() * A
real:            A.real + A.imag
conj:            m.conj(A)
astype:          A.astype(complex) * 1j
float32:         A.astype(m.float32) * 2
int array:       m.array([1, 2, 3, 4]) * A[0] / 2
nansafe:         m.add(A, A)
out:             m.add(A[0], A[1], out=m.zeros(4))
subtract out:    m.subtract(A[0], A[1], m.empty(4))
sort concrete:   m.sort(m.array([3., 1., 2., 0.])) * A[0]
argsort:         A[0][m.argsort(m.array([3., 1., 2., 0.]))]
unique:          m.unique(m.array([1, 2, 2]))[1] * A
nonzero:         A[0][m.nonzero(m.array([1, 0, 1, 0]))]


det:             m.linalg.det(A[:2, :2])
flat iteration:  sum(x for x in A.flat)
python sum:      sum(A)
python max:      max(A[0])
python abs:      abs(A)
zip:             [x * y for x, y in zip(A[0], A[1])]
divmod:          A[0] // 2 * 0 + A[0]
fromiter:        m.fromiter((x for x in A[0]), float)
multiply method: A.__mul__(2)
item:            A.item(1, 2)
copy:            m.copy(A)
transpose:       m.transpose(A)
take method:     A.take([1, 2])
sum method:      A.sum(axis=0)
prod method:     A.prod()
float64:         m.float64(2) * A
dtype:           m.zeros(4, dtype=A.dtype) + A[0]
iscomplexobj:    A if not m.iscomplexobj(A) else 0
allclose:        A * m.allclose(m.ones(2), m.ones(2))
newaxis dot:     m.dot(A[0][None, :], A[1][:, None])
nan_to_num:      m.sqrt(m.abs(A))
exp concrete:    m.exp(0) * A
finfo:           m.finfo(float).eps * A
mod:             m.mod(m.arange(4), 2) * A[0]
sqrt:            m.sqrt(A * A + 1)
power ufunc:     m.power(A, 2)
ndindex:         sum(A[i] for i in m.ndindex(*A.shape))
nditer:          sum(x for x in m.ravel(A))
triu_indices:    A[:, :3][m.triu_indices(3)]
mgrid:           m.mgrid[0:4] * A[0]
meshgrid:        m.meshgrid(m.arange(4), m.arange(3))[0] * A
indices:         m.indices((3, 4))[0] * A


partial sums:    m.sum([A[0], A[1]], axis=0)
array of list:   m.array([A[0], A[1]])
array scalars:   m.array([A[0, 0], 2, A[1, 1]])
c_:              m.c_[A[0], A[1]]
r_:              m.r_[A[0], A[1]]
ptp:             A[0].max() - A[0].min()


roll axis:       m.roll(A, 1, axis=0)
rot90:           m.rot90(A)
iadd slice:      iadd(A)
at:              at(m, A)
put:             put(m, A)
fill:            fill(m, A)
"""


def iadd(A):
    B = A.copy()
    B[1:] += A[:-1]
    B[:, 0] *= 2
    B[0, :] = B[1, :]
    return B


def at(m, A):
    y = m.zeros(3)
    m.add.at(y, [0, 1, 1, 2], A[0])
    m.subtract.at(y, m.array([2, 2]), 1.0)
    return y


def put(m, A):
    B = A.copy()
    m.put(B, [0, 5], [1., 2.])
    m.fill_diagonal(B, 7.)
    return B


def fill(m, A):
    B = m.empty((3, 4))
    B.fill(2.)
    B.flat[3] = 5.
    return B + A


def t_func(h, expr):
    m = h.np
    A = h.mat('A', 3, 4)
    r = eval(expr, dict(m=m, A=A, iadd=iadd, at=at, put=put, fill=fill, range=range))
    r = m.array(r) if isinstance(r, list) else r
    h.claim('shape %s' % (m.shape(r),), True)
    h.eq('value', r, r)


@prop('SELF', ['pykrylov.linop'])
def selftest(tier):
    for l in FUNCS.strip().splitlines():
        if not l:
            continue
        k, e = l.split(':', 1)
        yield Case(k, t_func, expr=e.strip())
