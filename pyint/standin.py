"""Stand-ins for NumPy, SciPy, pandas and mlio._core under which the Python
modules of mlio.integ run unchanged, on symbolic shapes, strides and contents.

An array is a function from byte offsets to elements: element (i, j) of an
array is what its memory holds at offset + i * strides[0] + j * strides[1].
What the C++ part of the module does with a buffer (take it or refuse it, which
elements a tensor has) is what property Y01 checks; it is repeated here.
"""
import sys
import types


class Unsupported(Exception):
    """The code uses something the stand-ins do not have."""


class Stub(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(self.__name__ + '.' + name)


class Dtype:
    def __init__(self, name, scalar=True, itemsize=8):
        self.name, self.scalar, self.itemsize = name, scalar, itemsize

    def __eq__(self, other):
        return self.name == getattr(other, 'name', None)

    def __hash__(self):
        return hash(self.name)


int64, uint64, int32 = Dtype('int64'), Dtype('uint64'), Dtype('int32', itemsize=4)


class Memory:
    """Where elements live; a copy is somewhere else."""

    def __init__(self, at):
        self.at = at    # offset -> element


def count(shape):
    n = 1
    for d in shape:
        n *= d
    return n


def c_strides(shape, itemsize):
    r, n = [], itemsize
    for d in reversed(shape):
        r.insert(0, n)
        n *= d
    return tuple(r)


def f_strides(shape, itemsize):
    r, n = [], itemsize
    for d in shape:
        r.append(n)
        n *= d
    return tuple(r)


def indices(shape):
    r = [()]
    for d in shape:
        r = [i + (k,) for i in r for k in range(d)]
    return r


def matches(shape, strides, wanted):
    # NumPy: what has no or one element in a dimension matches any stride.
    if 0 in shape:
        return True
    return all(d == 1 or s == w for d, s, w in zip(shape, strides, wanted))


class Flags:
    def __init__(self, a):
        self.c_contiguous = matches(a.shape, a.strides, c_strides(a.shape, a.itemsize))
        self.f_contiguous = matches(a.shape, a.strides, f_strides(a.shape, a.itemsize))
        self.contiguous = self.c_contiguous
        self.forc = self.c_contiguous or self.f_contiguous
        self.writeable = a.writable

    def __getattr__(self, name):
        raise Unsupported('flags.' + name)

    def __getitem__(self, name):
        return getattr(self, {'C': 'c_contiguous', 'F': 'f_contiguous'}.get(name, name).lower())


class ndarray:
    def __init__(self, shape, strides, itemsize, memory, offset=0, dtype=int32, writable=True):
        self.shape, self.strides, self.itemsize = tuple(shape), tuple(strides), itemsize
        self.memory, self.offset, self.dtype, self.writable = memory, offset, dtype, writable

    def __getattr__(self, name):
        raise Unsupported('ndarray.' + name)

    @property
    def flags(self):
        return Flags(self)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return count(self.shape)

    @property
    def nbytes(self):
        return self.size * self.itemsize

    def at(self, index):
        o = self.offset
        for i, s in zip(index, self.strides):
            o += i * s
        return self.memory.at(o)

    def _fresh(self, strides, dtype=None, itemsize=None):
        elements = {}
        for i in indices(self.shape):
            elements[sum(k * s for k, s in zip(i, strides))] = self.at(i)
        return ndarray(self.shape, strides, itemsize or self.itemsize, Memory(lambda o: elements[o]), 0, dtype or self.dtype)

    def copy(self, order='C'):
        f = self.flags
        if order == 'F' or (order in 'AK' and f.f_contiguous and not f.c_contiguous):
            return self._fresh(f_strides(self.shape, self.itemsize))
        return self._fresh(c_strides(self.shape, self.itemsize))

    def astype(self, dtype, copy=True):
        dtype = as_dtype(dtype)
        if dtype == self.dtype and not copy:
            return self
        return self._fresh(c_strides(self.shape, dtype.itemsize), dtype, dtype.itemsize)

    def flatten(self, order='C'):
        c = self.copy('C')
        return ndarray((self.size,), (self.itemsize,), self.itemsize, c.memory, 0, self.dtype)

    def ravel(self, order='C'):
        if self.flags.c_contiguous:
            return ndarray((self.size,), (self.itemsize,), self.itemsize, self.memory, self.offset, self.dtype, self.writable)
        return self.flatten()

    def __len__(self):
        return self.shape[0]


def as_dtype(d):
    if isinstance(d, Dtype):
        return d
    raise Unsupported('dtype %r' % (d,))


def exported(x):
    """An array over the buffer that an object exports."""
    if isinstance(x, ndarray):
        return x
    if isinstance(x, DenseTensor):
        return ndarray(x.shape, [s * x.itemsize for s in x.strides], x.itemsize, x.memory, 0, x.dtype)
    if isinstance(x, DeviceArray):
        return x.array
    raise Unsupported('buffer of %r' % type(x).__name__)


def array(x, dtype=None, copy=True, order='K'):
    a = exported(x)
    if dtype is not None and as_dtype(dtype) != a.dtype:
        return a.astype(dtype)
    return a.copy(order) if copy else a


def asarray(x, dtype=None, order=None):
    return array(x, dtype, copy=False)


def ascontiguousarray(x, dtype=None):
    a = asarray(x, dtype)
    return a if a.flags.c_contiguous else a.copy('C')


def asfortranarray(x, dtype=None):
    a = asarray(x, dtype)
    return a if a.flags.f_contiguous else a.copy('F')


def zeros_like(x, dtype=None):
    a = exported(x)
    return ndarray(a.shape, c_strides(a.shape, a.itemsize), a.itemsize, Memory(lambda o: 0), 0, a.dtype)


def zeros(shape, dtype=int64):
    shape = shape if isinstance(shape, tuple) else (shape,)
    return ndarray(shape, c_strides(shape, 8), 8, Memory(lambda o: 0), 0, as_dtype(dtype))


def issctype(d):
    return isinstance(d, Dtype) and d.scalar


# ---- mlio._core

class Tensor:
    pass


def taken(data, copy):
    """The elements of a buffer as a tensor has them (see Y01)."""
    a = exported(data)
    f = a.flags
    by_columns = f.f_contiguous and not f.c_contiguous
    if not copy:
        if not a.writable:
            raise BufferError('read-only')
        if not f.forc:
            raise ValueError('not contiguous')
        return Memory(lambda o: a.memory.at(a.offset + o)), a
    elements = {}
    order = f_strides(a.shape, 1) if by_columns else c_strides(a.shape, 1)
    for i in indices(a.shape):
        elements[sum(k * s for k, s in zip(i, order)) * a.itemsize] = a.at(i)
    return Memory(lambda o: elements[o]), a


class DenseTensor(Tensor):
    def __init__(self, shape, data, strides=None, copy=True):
        self.shape = tuple(shape)
        self.memory, a = taken(data, copy)
        self.itemsize, self.dtype = a.itemsize, a.dtype
        self.strides = tuple(strides) if strides is not None else c_strides(self.shape, 1)
        if len(self.strides) != len(self.shape):
            raise ValueError('strides')
        if 0 not in self.shape and a.size < 1 + sum((d - 1) * abs(s) for d, s in zip(self.shape, self.strides)):
            raise ValueError('size')
        self.shares = None if copy else a.memory

    def at(self, index):
        return self.memory.at(sum(i * s for i, s in zip(index, self.strides)) * self.itemsize)

    @property
    def data(self):
        return DeviceArray(ndarray((count(self.shape),), (self.itemsize,), self.itemsize, self.memory, 0, self.dtype))

    def __getattr__(self, name):
        raise Unsupported('DenseTensor.' + name)


class DeviceArray:
    def __init__(self, a):
        self.array = a
        self.size = a.size


class CooTensor(Tensor):
    def __init__(self, shape, data, coords, copy=True):
        self.shape = tuple(shape)
        m, a = taken(data, copy)
        self.values = ndarray((a.size,), (a.itemsize,), a.itemsize, m, 0, a.dtype)
        self.shares = None if copy else a.memory
        self.coords = []
        for c in coords:
            m, a = taken(c, copy)
            self.coords.append(ndarray((a.size,), (a.itemsize,), a.itemsize, m, 0, a.dtype))
        if len(self.coords) != len(self.shape) or any(c.size != self.values.size for c in self.coords):
            raise ValueError('coordinates')
        if any(c.itemsize != 8 for c in self.coords):
            raise ValueError('the type of coordinates')

    @property
    def data(self):
        return DeviceArray(self.values)

    def indices(self, dim):
        return DeviceArray(self.coords[dim])

    def __getattr__(self, name):
        raise Unsupported('CooTensor.' + name)


# ---- scipy.sparse, pandas

class coo_matrix:
    def __init__(self, arg, shape=None, dtype=None, copy=False):
        if not (isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], (tuple, list))):
            raise Unsupported('coo_matrix of %r' % (arg,))
        data, (row, col) = arg
        if shape is None:
            raise Unsupported('coo_matrix without a shape')
        self.shape = tuple(shape)
        self.data, self.row, self.col = array(data, copy=copy), array(row, copy=copy), array(col, copy=copy)
        self.copied = copy
        if self.data.size != self.row.size or self.data.size != self.col.size or len(self.shape) != 2:
            raise ValueError('sizes')

    @property
    def coords(self):
        return self.row, self.col

    @property
    def nnz(self):
        return self.data.size

    def __getattr__(self, name):
        raise Unsupported('coo_matrix.' + name)


class DataFrame:
    def __init__(self, data):
        if not isinstance(data, dict):
            raise Unsupported('DataFrame of %r' % type(data).__name__)
        self.columns = list(data.items())


def install():
    def module(name, **kw):
        m = Stub(name)
        m.__dict__.update(kw)
        sys.modules[name] = m
        return m
    np = module('numpy', array=array, asarray=asarray, ascontiguousarray=ascontiguousarray, asfortranarray=asfortranarray, zeros_like=zeros_like,
                zeros=zeros, issctype=issctype, ndarray=ndarray, int64=int64, uint64=uint64, intp=int64, int32=int32)
    core = module('mlio._core', Tensor=Tensor, DenseTensor=DenseTensor, CooTensor=CooTensor)
    mlio = module('mlio', _core=core, DenseTensor=DenseTensor, CooTensor=CooTensor, Tensor=Tensor)
    mlio.__path__ = []
    sparse = module('scipy.sparse', coo_matrix=coo_matrix)
    module('scipy', sparse=sparse).__path__ = []
    module('pandas', DataFrame=DataFrame)
    module('mlio.integ').__path__ = []
    return np


def load(repo):
    """The real modules, compiled from the source."""
    saved = {k: sys.modules.get(k) for k in ('numpy', 'scipy', 'scipy.sparse', 'pandas')}
    install()
    out = {}
    for name in ('numpy', 'scipy', 'pandas'):
        path = '%s/src/mlio-py/mlio/integ/%s.py' % (repo, name)
        m = types.ModuleType('mlio.integ.' + name)
        m.__file__ = path
        sys.modules['mlio.integ.' + name] = m
        with open(path) as f:
            exec(compile(f.read(), path, 'exec'), m.__dict__)
        out[name] = m
    for k, v in saved.items():
        if v is None:
            sys.modules.pop(k, None)
        else:
            sys.modules[k] = v
    return out
