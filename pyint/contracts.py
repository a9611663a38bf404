"""Y05: conversions between tensors and the arrays of NumPy, SciPy and pandas.
Each function is a contract that CrossHair decides for all arguments."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import standin as s    # noqa: E402

_m = s.load(os.environ.get('MLSE_REPO', '/repo'))
_np, _sp, _pd = _m['numpy'], _m['scipy'], _m['pandas']
MAX = int(os.environ.get('Y05_DIM', '2'))
RANK = int(os.environ.get('Y05_RANK', '2'))


def _memory():
    # What is at an offset is the offset: two elements are equal exactly if
    # they are the same.
    return s.Memory(lambda o: ('element', o))


def _shape(rank, n0, n1, n2):
    return (n0, n1, n2)[:rank]


def _array(shape, s0, s1, s2, size, offset, writable, scalar=True):
    strides = (s0 * size, s1 * size, s2 * size)[:len(shape)]
    return s.ndarray(shape, strides, size, _memory(), offset, s.int32 if scalar else s.Dtype('record', False), writable)


def _same(t, a):
    return t.shape == a.shape and all(t.at(i) == a.at(i) for i in s.indices(a.shape))


def to_tensor(rank: int, n0: int, n1: int, n2: int, s0: int, s1: int, s2: int, size: int, offset: int, writable: bool) -> bool:
    """
    A tensor that is made of an array has its elements and is a copy.
    pre: 0 <= rank <= RANK
    pre: 0 <= n0 <= MAX and 0 <= n1 <= MAX and 0 <= n2 <= MAX
    pre: size == 1 or size == 2 or size == 4 or size == 8
    post: _
    """
    a = _array(_shape(rank, n0, n1, n2), s0, s1, s2, size, offset, writable)
    t = _np.to_tensor(a)
    return isinstance(t, s.DenseTensor) and t.shares is None and _same(t, a)


def as_tensor(rank: int, n0: int, n1: int, n2: int, s0: int, s1: int, s2: int, size: int, offset: int, writable: bool, scalar: bool) -> bool:
    """
    A tensor that wraps an array has its elements and its memory.
    pre: 0 <= rank <= RANK
    pre: 0 <= n0 <= MAX and 0 <= n1 <= MAX and 0 <= n2 <= MAX
    pre: size == 1 or size == 2 or size == 4 or size == 8
    post: _
    """
    a = _array(_shape(rank, n0, n1, n2), s0, s1, s2, size, offset, writable, scalar)
    try:
        t = _np.as_tensor(a)
    except (ValueError, BufferError):
        return not (a.flags.forc and writable and scalar)
    return scalar and isinstance(t, s.DenseTensor) and t.shares is a.memory and _same(t, a)


def _tensor(shape, strides, size):
    """A tensor with any strides over memory that is large enough."""
    t = object.__new__(s.DenseTensor)
    t.shape, t.strides, t.itemsize, t.dtype, t.memory = shape, strides[:len(shape)], size, s.int32, _memory()
    return t


def as_numpy(rank: int, n0: int, n1: int, n2: int, s0: int, s1: int, s2: int, size: int) -> bool:
    """
    An array that wraps a tensor has its elements and its memory.
    pre: 0 <= rank <= RANK
    pre: 0 <= n0 <= MAX and 0 <= n1 <= MAX and 0 <= n2 <= MAX
    pre: s0 >= 0 and s1 >= 0 and s2 >= 0
    pre: size == 1 or size == 2 or size == 4 or size == 8
    post: _
    """
    t = _tensor(_shape(rank, n0, n1, n2), (s0, s1, s2), size)
    a = _np.as_numpy(t)
    return a.memory is t.memory and a.itemsize == size and _same(t, a)


def to_numpy(rank: int, n0: int, n1: int, n2: int, s0: int, s1: int, s2: int, size: int) -> bool:
    """
    An array that is made of a tensor has its elements and is a copy.
    pre: 0 <= rank <= RANK
    pre: 0 <= n0 <= MAX and 0 <= n1 <= MAX and 0 <= n2 <= MAX
    pre: s0 >= 0 and s1 >= 0 and s2 >= 0
    pre: size == 1 or size == 2 or size == 4 or size == 8
    post: _
    """
    t = _tensor(_shape(rank, n0, n1, n2), (s0, s1, s2), size)
    a = _np.to_numpy(t)
    return a.memory is not t.memory and a.itemsize == size and _same(t, a)


def _vector(values, step, dtype, size=8):
    known = {k * step * size: v for k, v in enumerate(values)}
    return s.ndarray((len(values),), (step * size,), size, s.Memory(lambda o: known[o]), 0, dtype)


def to_coo_matrix(rank: int, n: int, c00: int, c01: int, c10: int, c11: int, v0: int, v1: int, d0: int, d1: int, d2: int) -> bool:
    """
    A matrix has the entries of its COO tensor and is a copy; there is none of three dimensions.
    pre: 1 <= rank <= 3 and 0 <= n <= 2
    post: _
    """
    coords = [[c00, c01][:n], [c10, c11][:n], [0, 0][:n]][:rank]
    t = s.CooTensor((d0, d1, d2)[:rank], _vector([v0, v1][:n], 1, s.int32), [_vector(c, 1, s.int64) for c in coords])
    memory = t.values.memory
    try:
        m = _sp.to_coo_matrix(t)
    except ValueError:
        return rank == 3
    if rank == 3 or m.shape != ((1, d0) if rank == 1 else (d0, d1)) or m.nnz != n or m.data.memory is memory:
        return False
    for k in range(n):
        row, col = (0, coords[0][k]) if rank == 1 else (coords[0][k], coords[1][k])
        if (m.row.at((k,)), m.col.at((k,)), m.data.at((k,))) != (row, col, (v0, v1)[k]):
            return False
    return True


def from_coo_matrix(n: int, c00: int, c01: int, c10: int, c11: int, v0: int, v1: int, d0: int, d1: int, wide: bool) -> bool:
    """
    A COO tensor has the entries of its matrix.
    pre: 0 <= n <= 2
    post: _
    """
    row, col, val = [c00, c01][:n], [c10, c11][:n], [v0, v1][:n]
    dt, size = (s.int64, 8) if wide else (s.int32, 4)
    m = s.coo_matrix((_vector(val, 1, s.int32, 4), (_vector(row, 1, dt, size), _vector(col, 1, dt, size))), (d0, d1))
    t = _sp.to_tensor(m)
    if t.shape != (d0, d1) or t.values.size != n:
        return False
    return all((t.coords[0].at((k,)), t.coords[1].at((k,)), t.values.at((k,))) == (row[k], col[k], val[k]) for k in range(n))


class _Thing:
    pass


def to_pandas(k: int, rank: int, n0: int, n1: int, s0: int, s1: int) -> bool:
    """
    A data frame has one column per feature, with its name and its elements row by row.
    pre: 0 <= k <= 2 and 1 <= rank <= 2
    pre: 0 <= n0 <= MAX and 0 <= n1 <= MAX
    pre: s0 >= 0 and s1 >= 0
    post: _
    """
    tensors = [_tensor((n0, n1)[:rank], (s0, s1), 4), _tensor((n0,), (s1,), 8)][:k]

    class Example:
        schema = _Thing()

        def __iter__(self):
            return iter(tensors)

        def __len__(self):
            return len(tensors)

        def __getitem__(self, i):
            return tensors[i if isinstance(i, int) else ('b', 'a').index(i)]

    Example.schema.attributes = []
    for name in ('b', 'a')[:k]:
        a = _Thing()
        a.name = name
        Example.schema.attributes.append(a)
    f = _pd.to_pandas(Example())
    if [n for n, _ in f.columns] != ['b', 'a'][:k]:
        return False
    for t, (_, c) in zip(tensors, f.columns):
        if c.shape != (s.count(t.shape),) or any(c.at((j,)) != t.at(i) for j, i in enumerate(s.indices(t.shape))):
            return False
    return True


def refused(kind: int) -> bool:
    """
    What is not of the kind a conversion is for is a ValueError.
    pre: 0 <= kind <= 1
    post: _
    """
    coo = s.CooTensor((1,), _vector([1], 1, s.int32), [_vector([0], 1, s.int64)])
    other = _Thing() if kind else None
    for f, xs in ((_np.as_numpy, (coo, other)), (_np.to_numpy, (coo, other)), (_sp.to_coo_matrix, (_tensor((1,), (1,), 4), other)),
                  (_sp.to_tensor, (coo, other))):
        for x in xs:
            try:
                f(x)
            except ValueError:
                continue
            return False
    return True


ALL = [to_tensor, as_tensor, as_numpy, to_numpy, to_coo_matrix, from_coo_matrix, to_pandas, refused]
