"""A model of numpy: an array is a base with an order of its axes, a flag for
its conjugate and, for the arrays that the library writes down by index, its
entries."""
from numpy_numbers import number, floating, integer, issubdtype, random, float32, float64

pi = 3.141592653589793
e = 2.718281828459045


class Num:
    """A number that is not written out."""

    def __init__(self, *how):
        self.how = how

    def __mul__(self, other):
        if isinstance(other, ndarray):
            return other * self
        return Num('*', self, other)

    def __rmul__(self, other):
        return Num('*', other, self)

    def __add__(self, other):
        return Num('+', self, other)

    def __radd__(self, other):
        return Num('+', other, self)

    def __neg__(self):
        return Num('-', self)


def cos(x):
    return Num('cos', x)


def sin(x):
    return Num('sin', x)


def exp(x):
    return Num('exp', x)


def sqrt(x):
    return Num('sqrt', x)




def prod(xs):
    n = 1
    for x in xs:
        n = n * x
    return n


class ndarray:
    def __init__(self, base, dims, conj=False, axes=None, fixed=False):
        self.base = base
        self.shape = tuple(dims)
        self.conj = conj
        self.axes = tuple(range(len(self.shape))) if axes is None else axes
        self.fixed = fixed      # the axes are those of a box: not to be merged

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def dtype(self):
        return number

    def reshape(self, *shape):
        dims = shape[0] if len(shape) == 1 and not isinstance(shape[0], int) else shape
        dims = tuple(dims)
        if dims == (-1,):
            dims = (prod(self.shape),)
        if dims == self.shape:
            return self
        if prod(dims) != prod(self.shape):
            raise ValueError('cannot reshape an array')
        if self.axes != tuple(range(len(self.shape))) or self.fixed:
            raise ValueError('entries of an array are scrambled')
        return ndarray(self.base, dims, self.conj)

    def ravel(self):
        return self.reshape(-1)

    def flatten(self):
        return self.reshape(-1)

    def astype(self, dtype):
        return self

    def conjugate(self):
        return ndarray(self.base, self.shape, not self.conj, self.axes, self.fixed)

    def conj(self):
        return self.conjugate()

    def order(self, order):
        return ndarray(self.base, [self.shape[i] for i in order], self.conj, tuple([self.axes[i] for i in order]), self.fixed)

    def transpose(self, *axes):
        if not axes:
            return self.order([len(self.shape) - 1 - i for i in range(len(self.shape))])
        if len(axes) == 1 and not isinstance(axes[0], int):
            axes = axes[0]
        return self.order([i % len(self.shape) for i in axes])

    @property
    def T(self):
        return self.transpose()

    def made(self, *how):
        return ndarray(('made', how), self.shape)

    def fact(self):
        return (self.base, self.shape, self.conj, self.axes)

    def __add__(self, other):
        if isinstance(other, complex):
            return self
        return self.made('+', self.fact(), other.fact())

    def __radd__(self, other):
        return self + other

    def __sub__(self, other):
        return self.made('-', self.fact(), other.fact())

    def __mul__(self, other):
        return self.made('*', self.fact(), other)

    def __rmul__(self, other):
        return self.made('*', self.fact(), other)

    def __truediv__(self, other):
        return self.made('/', self.fact(), other)

    def __getitem__(self, i):
        return ndarray(('entry', self.fact(), i), self.shape[1:])

    def __setitem__(self, i, x):
        n = len(self.base[1])
        self.base = ('entries', tuple([x if j == i % n else y for j, y in enumerate(self.base[1])]))


def shape_of(x):
    if isinstance(x, (list, tuple)):
        return [len(x)] + shape_of(x[0])
    return []


def array(x, dtype=None):
    if isinstance(x, ndarray):
        return x
    return ndarray(('array', x), shape_of(x))


def asarray(x, dtype=None):
    return array(x)


def zeros(shape, dtype=None):
    if isinstance(shape, int):
        shape = (shape,)
    return ndarray(('entries', tuple([0 for _ in range(prod(shape))])), shape)


def ones(shape, dtype=None):
    if isinstance(shape, int):
        shape = (shape,)
    return ndarray(('entries', tuple([1 for _ in range(prod(shape))])), shape)


def eye(n, dtype=None):
    return ndarray(('entries', tuple([1 if i == j else 0 for i in range(n) for j in range(n)])), (n, n))


def identity(n, dtype=None):
    return eye(n)


def diag(x):
    return ndarray(('diag', x.fact()), (x.shape[0], x.shape[0]))


def kron(a, b):
    return ndarray(('kron', a.fact(), b.fact()), [x * y for x, y in zip(a.shape, b.shape)])


def conjugate(x):
    return x.conjugate()


def conj(x):
    return x.conjugate()


def transpose(x, axes=None):
    return x.transpose() if axes is None else x.transpose(axes)


def reshape(x, shape):
    return x.reshape(shape)


def moveaxis(x, source, destination):
    if isinstance(source, int):
        source = (source,)
        destination = (destination,)
    n = len(x.shape)
    source = [i % n for i in source]
    destination = [i % n for i in destination]
    if len(source) != len(destination) or len(set(source)) != len(source) or len(set(destination)) != len(destination):
        raise ValueError('moveaxis: not a permutation')
    rest = [i for i in range(n) if i not in source]
    order = []
    for i in range(n):
        if i in destination:
            order.append(source[destination.index(i)])
        else:
            order.append(rest.pop(0))
    return x.order(order)


def array_equal(a, b):
    if a is None or b is None:
        return a is b
    return a.fact() == b.fact()
