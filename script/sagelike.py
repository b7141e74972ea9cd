"""A small stand-in for the parts of SageMath that the parameter script can be expected to use.

It lets the repository's .sage file run unchanged (after the usual preparsing) with nothing but the Python standard
library: prime fields, dense matrices and vectors, vector spaces, minimal and characteristic polynomials.
"""
import ast, io, math, random, sys, tokenize, types
from fractions import Fraction


class Missing(Exception):
    """The script asks for something this stand-in does not provide."""


# ------------------------------------------------------------------ numbers
class Integer(int):
    def bits(self):
        n, r = abs(int(self)), []
        while n:
            r.append(Integer(n & 1))
            n >>= 1
        return r

    def nbits(self):
        return Integer(abs(int(self)).bit_length())

    def ndigits(self, base=10):
        n, k = abs(int(self)), 0
        while n:
            n //= int(base)
            k += 1
        return Integer(k)

    def digits(self, base=10, padto=0):
        n, r = abs(int(self)), []
        while n:
            r.append(Integer(n % int(base)))
            n //= int(base)
        return r + [Integer(0)] * (int(padto) - len(r))

    def binary(self):
        return bin(int(self))[2:]

    def hex(self):
        return "%x" % int(self)

    def is_prime(self):
        return is_prime(self)

    def gcd(self, o):
        return gcd(self, o)

    def inverse_mod(self, m):
        return Integer(pow(int(self), -1, int(m)))

    def powermod(self, e, m):
        return Integer(pow(int(self), int(e), int(m)))

    def sqrt(self):
        r = math.isqrt(int(self))
        return Integer(r) if r * r == int(self) else math.sqrt(int(self))

    def isqrt(self):
        return Integer(math.isqrt(int(self)))

    def is_one(self):
        return int(self) == 1

    def is_zero(self):
        return int(self) == 0

    def str(self, base=10):
        return "".join("0123456789abcdefghijklmnopqrstuvwxyz"[int(d)] for d in reversed(self.digits(base))) or "0"

    def __truediv__(self, o):
        return _div(self, o)

    def __rtruediv__(self, o):
        return _div(o, self)

    def __pow__(self, e, m=None):
        if m is not None:
            return Integer(pow(int(self), int(e), int(m)))
        if isinstance(e, int) and e < 0:
            return rat(Fraction(int(self)) ** int(e))
        if isinstance(e, Fraction) and not isinstance(e, int):
            return float(self) ** float(e)
        r = int.__pow__(int(self), e)
        return Integer(r) if isinstance(r, int) else r

    def __rpow__(self, b):
        return Integer(b) ** self if isinstance(b, int) else NotImplemented


def _wrap(name):
    base = getattr(int, name)

    def f(self, *a):
        r = base(self, *a)
        return Integer(r) if type(r) is int else r
    return f


for _n in ("add sub mul floordiv mod radd rsub rmul rfloordiv rmod neg pos abs and or xor rand ror rxor lshift rshift rlshift rrshift invert").split():
    setattr(Integer, "__%s__" % _n, _wrap("__%s__" % _n))


def rat(f):
    return Integer(f.numerator) if f.denominator == 1 else Rational(f)


class Rational(Fraction):
    def __new__(cls, a, b=None):
        return Fraction.__new__(cls, a) if b is None else Fraction.__new__(cls, a, b)

    def floor(self):
        return Integer(math.floor(self))

    def ceil(self):
        return Integer(math.ceil(self))


def _rwrap(name):
    base = getattr(Fraction, name)

    def f(self, *a):
        r = base(self, *a)
        return rat(r) if isinstance(r, Fraction) else r
    return f


for _n in "add sub mul truediv radd rsub rmul rtruediv neg pow".split():
    setattr(Rational, "__%s__" % _n, _rwrap("__%s__" % _n))


def _div(a, b):
    if isinstance(a, (FE, Matrix, Vector)) or isinstance(b, (FE, Matrix, Vector)):
        return NotImplemented
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        return rat(Fraction(a) / Fraction(b))
    if isinstance(a, float) or isinstance(b, float):
        return float(a) / float(b)
    return NotImplemented


def gcd(*a):
    if len(a) == 1 and not isinstance(a[0], int):
        a = tuple(a[0])
    return Integer(math.gcd(*[int(x) for x in a]))


def lcm(*a):
    if len(a) == 1 and not isinstance(a[0], int):
        a = tuple(a[0])
    return Integer(math.lcm(*[int(x) for x in a]))


def is_prime(n):
    n = int(n)
    if n < 2:
        return False
    small = (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37)
    for q in small:
        if n % q == 0:
            return n == q
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    rng = random.Random(n)
    for a in list(small) + [rng.randrange(2, n - 1) for _ in range(24)]:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def next_prime(n):
    n = int(n) + 1
    while not is_prime(n):
        n += 1
    return Integer(n)


def binomial(n, k):
    """sage: integral arguments of any type are computed exactly."""
    def integral(x):
        if isinstance(x, int):
            return int(x)
        if isinstance(x, (float, Fraction)) and x == int(x):
            return int(x)
        return None
    ni, ki = integral(n), integral(k)
    if ki is None:
        d = integral(n - k)
        if d is None:
            raise TypeError("either m or x-m must be an integer")
        ki = d
    if ki < 0:
        return Integer(0)
    if ni is not None:
        if isinstance(n, float) and ni >= ki:
            # the result is a real number; beyond the range of a float its logarithm is infinite
            if math.lgamma(ni + 1) - math.lgamma(ki + 1) - math.lgamma(ni - ki + 1) > 720:
                return math.inf
            try:
                return float(math.comb(ni, ki))
            except OverflowError:
                return math.inf
        if ni >= 0:
            return Integer(math.comb(ni, ki))
        return Integer((-1) ** ki * math.comb(ki - ni - 1, ki))
    r = 1.0
    for j in range(ki):
        r = r * (n - j) / (j + 1)
    return r


# ------------------------------------------------------------------ prime fields
class Field:
    _all = {}

    def __new__(cls, p):
        p = int(p)
        if p not in cls._all:
            if not is_prime(p):
                raise Missing("only prime fields")
            f = object.__new__(cls)
            f.p = p
            cls._all[p] = f
        return cls._all[p]

    def __call__(self, x=0):
        if isinstance(x, FE):
            if x.F is not self:
                raise TypeError("other field")
            return x
        if isinstance(x, str):
            x = int(x, 0)
        if isinstance(x, Fraction) and not isinstance(x, int):
            return FE(self, x.numerator * pow(x.denominator, -1, self.p))
        if isinstance(x, float):
            if x != int(x):
                raise TypeError("not integral")
        return FE(self, int(x))

    def __contains__(self, x):
        try:
            self(x)
            return True
        except (TypeError, ValueError):
            return False

    def order(self):
        return Integer(self.p)

    def characteristic(self):
        return Integer(self.p)

    cardinality = order

    def zero(self):
        return FE(self, 0)

    def one(self):
        return FE(self, 1)

    def random_element(self):
        return FE(self, random.randrange(self.p))

    def __repr__(self):
        return "Finite Field of size %d" % self.p


def GF(p, *a, **k):
    return Field(p)


class FE:
    __slots__ = ("F", "v")

    def __init__(self, F, v):
        self.F = F
        self.v = v % F.p

    def _c(self, o):
        if isinstance(o, FE):
            if o.F is not self.F:
                raise TypeError("other field")
            return o.v
        if isinstance(o, int):
            return int(o)
        if isinstance(o, Fraction):
            return o.numerator * pow(o.denominator, -1, self.F.p)
        return None

    def __add__(self, o):
        c = self._c(o)
        return NotImplemented if c is None else FE(self.F, self.v + c)
    __radd__ = __add__

    def __sub__(self, o):
        c = self._c(o)
        return NotImplemented if c is None else FE(self.F, self.v - c)

    def __rsub__(self, o):
        c = self._c(o)
        return NotImplemented if c is None else FE(self.F, c - self.v)

    def __mul__(self, o):
        c = self._c(o)
        return NotImplemented if c is None else FE(self.F, self.v * c)
    __rmul__ = __mul__

    def __truediv__(self, o):
        c = self._c(o)
        if c is None:
            return NotImplemented
        if c % self.F.p == 0:
            raise ZeroDivisionError("inverse of zero")
        return FE(self.F, self.v * pow(c, -1, self.F.p))

    def __rtruediv__(self, o):
        c = self._c(o)
        return NotImplemented if c is None else FE(self.F, c) / self

    def __pow__(self, e):
        e = int(e)
        if e < 0 and self.v == 0:
            raise ZeroDivisionError("inverse of zero")
        return FE(self.F, pow(self.v, e, self.F.p))

    def __neg__(self):
        return FE(self.F, -self.v)

    def __pos__(self):
        return self

    def __eq__(self, o):
        if not isinstance(o, (FE, int, Fraction)) or isinstance(o, FE) and o.F is not self.F:
            return False
        return (self._c(o) - self.v) % self.F.p == 0

    def __lt__(self, o):
        return self.v < int(o)

    def __hash__(self):
        return hash(self.v)

    def __int__(self):
        return self.v
    __index__ = __int__

    def __bool__(self):
        return self.v != 0

    def lift(self):
        return Integer(self.v)

    def is_zero(self):
        return self.v == 0

    def inverse(self):
        return self ** -1

    def inverse_of_unit(self):
        return self ** -1

    def parent(self):
        return self.F

    def __format__(self, spec):
        return format(self.v, spec)

    def __repr__(self):
        return str(self.v)


# ------------------------------------------------------------------ vectors and matrices
def common(entries):
    f = [x.F for x in entries if isinstance(x, FE)]
    return f[0] if f else None


class Vector:
    def __init__(self, F, xs):
        xs = list(xs)
        F = F or common(xs)
        self.F = F
        self.x = [F(v) for v in xs] if F else xs

    def __getitem__(self, i):
        r = self.x[i]
        return Vector(self.F, r) if isinstance(i, slice) else r

    def __setitem__(self, i, v):
        self.x[i] = self.F(v) if self.F else v

    def __len__(self):
        return len(self.x)

    def __iter__(self):
        return iter(self.x)

    def __eq__(self, o):
        return isinstance(o, Vector) and self.x == o.x

    def __hash__(self):
        return hash(tuple(self.x))

    def __add__(self, o):
        if not isinstance(o, Vector):
            return NotImplemented
        return Vector(self.F or o.F, [a + b for a, b in zip(self.x, o.x, strict=True)])

    def __sub__(self, o):
        if not isinstance(o, Vector):
            return NotImplemented
        return Vector(self.F or o.F, [a - b for a, b in zip(self.x, o.x, strict=True)])

    def __mul__(self, o):
        if isinstance(o, Matrix):
            return Vector(self.F or o.F, [_dot(self.x, c) for c in zip(*o.m)])
        if isinstance(o, Vector):
            return _dot(self.x, o.x)
        return Vector(self.F, [a * o for a in self.x])

    def __rmul__(self, o):
        return Vector(self.F, [o * a for a in self.x])

    def __neg__(self):
        return Vector(self.F, [-a for a in self.x])

    def list(self):
        return list(self.x)

    def dot_product(self, o):
        return _dot(self.x, o.x)

    def is_zero(self):
        return not any(self.x)

    def __repr__(self):
        return "(%s)" % ", ".join(map(str, self.x))


def vector(*a):
    a = [x for x in a]
    F = None
    if a and isinstance(a[0], Field):
        F = a.pop(0)
    if len(a) == 1 and isinstance(a[0], int):
        return Vector(F, [0] * int(a[0]))
    if len(a) == 2:
        return Vector(F, [v for v in a[1]])
    return Vector(F, a[0])


def _dot(a, b):
    r = None
    for x, y in zip(a, b, strict=True):
        r = x * y if r is None else r + x * y
    return Integer(0) if r is None else r


class Matrix:
    def __init__(self, F, rows, nrows=None, ncols=None):
        rows = [list(r) for r in rows]
        F = F or common([x for r in rows for x in r])
        self.F = F
        self.m = [[F(v) for v in r] for r in rows] if F else rows
        self.nr = len(rows) if nrows is None else nrows
        self.nc = (len(rows[0]) if rows else 0) if ncols is None else ncols
        if any(len(r) != self.nc for r in rows):
            raise ValueError("ragged rows")

    def nrows(self):
        return Integer(self.nr)

    def ncols(self):
        return Integer(self.nc)

    def dimensions(self):
        return (self.nrows(), self.ncols())

    def base_ring(self):
        return self.F

    def rows(self):
        return [Vector(self.F, r) for r in self.m]

    def row(self, i):
        return Vector(self.F, self.m[int(i)])

    def columns(self):
        return [Vector(self.F, c) for c in zip(*self.m)]

    def column(self, i):
        return Vector(self.F, [r[int(i)] for r in self.m])

    def list(self):
        return [x for r in self.m for x in r]

    def diagonal(self):
        return [self.m[i][i] for i in range(min(self.nr, self.nc))]

    def trace(self):
        return sum(self.diagonal(), Integer(0))

    def __iter__(self):
        return iter(self.rows())

    def __len__(self):
        return self.nr

    @staticmethod
    def _ix(i, n):
        if isinstance(i, slice):
            return list(range(*i.indices(n))), True
        if isinstance(i, (list, tuple, range)):
            return [int(k) for k in i], True
        return [int(i)], False

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            ix, many = self._ix(key, self.nr)
            return Matrix(self.F, [self.m[i] for i in ix]) if many else Vector(self.F, self.m[ix[0]])
        (ri, rm), (ci, cm) = self._ix(key[0], self.nr), self._ix(key[1], self.nc)
        if not rm and not cm:
            return self.m[ri[0]][ci[0]]
        return Matrix(self.F, [[self.m[i][j] for j in ci] for i in ri], len(ri), len(ci))

    def __setitem__(self, key, v):
        if not isinstance(key, tuple):
            key = (key, slice(None))
        (ri, rm), (ci, cm) = self._ix(key[0], self.nr), self._ix(key[1], self.nc)
        if not rm and not cm:
            if self.F is None and isinstance(v, FE):
                self._over(v.F)
            self.m[ri[0]][ci[0]] = self.F(v) if self.F else v
            return
        if isinstance(v, Matrix):
            vals = v.m
        elif isinstance(v, Vector):
            vals = [v.x] if len(ri) == 1 else [[x] for x in v.x]
        else:
            vals = [list(r) if hasattr(r, "__iter__") else [r] for r in v]
        f = common([x for r in vals for x in r])
        if self.F is None and f:
            self._over(f)
        if len(vals) != len(ri) or any(len(r) != len(ci) for r in vals):
            raise ValueError("shape")
        for i, r in zip(ri, vals):
            for j, x in zip(ci, r):
                self.m[i][j] = self.F(x) if self.F else x

    def _over(self, F):
        # sage would refuse to store field elements in an integer matrix unless they lift; values are what counts
        self.F = F
        self.m = [[F(x) for x in r] for r in self.m]

    def set_immutable(self):
        pass

    def copy(self):
        return Matrix(self.F, self.m, self.nr, self.nc)
    __copy__ = copy

    def __add__(self, o):
        if isinstance(o, Matrix):
            return Matrix(self.F or o.F, [[a + b for a, b in zip(x, y, strict=True)] for x, y in zip(self.m, o.m, strict=True)], self.nr, self.nc)
        return self + scalar(self.F, self.nr, o)

    def __sub__(self, o):
        return self + (-o if isinstance(o, Matrix) else scalar(self.F, self.nr, -o))

    def __neg__(self):
        return Matrix(self.F, [[-a for a in r] for r in self.m], self.nr, self.nc)

    def __mul__(self, o):
        if isinstance(o, Matrix):
            F = self.F or o.F
            if self.nc != o.nr:
                raise TypeError("shape")
            if F and self.F and o.F:
                p = F.p
                cols = [[x.v for x in c] for c in zip(*o.m)]
                rows = [[x.v for x in r] for r in self.m]
                return Matrix(F, [[FE(F, sum(map(int.__mul__, r, c)) % p) for c in cols] for r in rows], self.nr, o.nc)
            return Matrix(F, [[_dot(r, c) for c in zip(*o.m)] for r in self.m], self.nr, o.nc)
        if isinstance(o, Vector):
            return Vector(self.F or o.F, [_dot(r, o.x) for r in self.m])
        return Matrix(self.F or (o.F if isinstance(o, FE) else None), [[a * o for a in r] for r in self.m], self.nr, self.nc)

    def __rmul__(self, o):
        return Matrix(self.F or (o.F if isinstance(o, FE) else None), [[o * a for a in r] for r in self.m], self.nr, self.nc)

    def __truediv__(self, o):
        return self * o.inverse() if isinstance(o, Matrix) else self * (self.F(1) / o)

    def __pow__(self, e):
        e = int(e)
        if e < 0:
            return self.inverse() ** (-e)
        r, b = identity(self.F, self.nr), self
        while e:
            if e & 1:
                r = r * b
            b, e = b * b, e >> 1
        return r

    def __invert__(self):
        return self.inverse()

    def __eq__(self, o):
        if isinstance(o, (int, FE)):
            o = scalar(self.F, self.nr, o)
        return isinstance(o, Matrix) and (self.nr, self.nc) == (o.nr, o.nc) and all(a == b for x, y in zip(self.m, o.m) for a, b in zip(x, y))

    __hash__ = None

    def transpose(self):
        return Matrix(self.F, [list(c) for c in zip(*self.m)], self.nc, self.nr)

    @property
    def T(self):
        return self.transpose()

    def is_zero(self):
        return not any(x for r in self.m for x in r)

    def is_one(self):
        return self == identity(self.F, self.nr)

    def is_square(self):
        return self.nr == self.nc

    def is_symmetric(self):
        return self == self.transpose()

    def _fld(self):
        if not self.F:
            raise Missing("linear algebra over the integers")
        return self.F

    def _ints(self):
        self._fld()
        return [[x.v for x in r] for r in self.m]

    def echelon_form(self):
        rows, _ = rref(self._ints(), self.F.p)
        rows += [[0] * self.nc for _ in range(self.nr - len(rows))]
        return Matrix(self.F, rows, self.nr, self.nc)
    rref = echelon_form

    def rank(self):
        return Integer(len(rref(self._ints(), self._fld().p)[0]))

    def det(self):
        return FE(self._fld(), determinant(self._ints(), self.F.p))
    determinant = det

    def is_invertible(self):
        return self.nr == self.nc and self.rank() == self.nr
    is_unit = is_invertible

    def is_singular(self):
        return not self.is_invertible()

    def inverse(self):
        p, n = self._fld().p, self.nr
        rows, piv = rref([r + [int(i == j) for j in range(n)] for i, r in enumerate(self._ints())], p)
        if piv[:n] != list(range(n)):
            raise ZeroDivisionError("matrix must be nonsingular")
        return Matrix(self.F, [r[n:] for r in rows], n, n)

    def right_kernel(self):
        return Space(self._fld(), self.nc, kernel(self._ints(), self.nc, self.F.p))

    def left_kernel(self):
        return self.transpose().right_kernel()
    kernel = left_kernel

    def right_nullity(self):
        return self.right_kernel().dimension()

    def solve_right(self, b):
        if self.is_invertible():
            return self.inverse() * b
        raise Missing("solve_right for singular matrices")

    def minimal_polynomial(self, var="x"):
        return Poly(self._fld(), minpoly(self._ints(), self.F.p))
    minpoly = minimal_polynomial

    def characteristic_polynomial(self, var="x"):
        return Poly(self._fld(), charpoly(self._ints(), self.F.p))
    charpoly = characteristic_polynomial

    def eigenvalues(self, extend=False):
        return [FE(self.F, r) for r, k in roots(charpoly(self._ints(), self._fld().p), self.F.p) for _ in range(k)]

    def eigenspaces_right(self, format="all", var="a", algebraic_multiplicity=False):
        """Only the eigenvalues in the base field; the others lie outside it in sage and can only be skipped."""
        out = []
        for r, _ in roots(charpoly(self._ints(), self._fld().p), self.F.p):
            out.append((FE(self.F, r), (self - scalar(self.F, self.nr, FE(self.F, r))).right_kernel()))
        return out

    def eigenspaces_left(self, format="all", var="a", algebraic_multiplicity=False):
        return self.transpose().eigenspaces_right()

    def submatrix(self, r=0, c=0, nr=-1, nc=-1):
        nr = self.nr - r if nr < 0 else nr
        nc = self.nc - c if nc < 0 else nc
        return self[list(range(r, r + nr)), list(range(c, c + nc))]

    def matrix_from_rows_and_columns(self, r, c):
        return self[list(r), list(c)]

    def set_block(self, i, j, b):
        self[list(range(i, i + b.nr)), list(range(j, j + b.nc))] = b

    def delete_rows(self, ix):
        ix = {int(i) for i in ix}
        return Matrix(self.F, [r for i, r in enumerate(self.m) if i not in ix])

    def delete_columns(self, ix):
        return self.transpose().delete_rows(ix).transpose()

    def stack(self, o):
        return Matrix(self.F or o.F, self.m + (o.m if isinstance(o, Matrix) else [list(o)]))

    def augment(self, o):
        return self.transpose().stack(o.transpose() if isinstance(o, Matrix) else o).transpose()

    def apply_map(self, f):
        return Matrix(None, [[f(x) for x in r] for r in self.m])

    def change_ring(self, F):
        return Matrix(F, self.m, self.nr, self.nc)

    def __repr__(self):
        return "\n".join("[%s]" % " ".join(map(str, r)) for r in self.m)


def identity(F, n):
    n = int(n)
    return Matrix(F, [[Integer(int(i == j)) for j in range(n)] for i in range(n)], n, n)


def scalar(F, n, v):
    n = int(n)
    return Matrix(F, [[v if i == j else Integer(0) for j in range(n)] for i in range(n)], n, n)


class _MatrixMaker:
    def __call__(self, *a):
        a = list(a)
        F = a.pop(0) if a and isinstance(a[0], Field) else None
        if not a:
            return Matrix(F, [], 0, 0)
        if isinstance(a[0], Matrix):
            return Matrix(F or a[0].F, a[0].m, a[0].nr, a[0].nc)
        if isinstance(a[0], int):
            r = int(a[0])
            c, data = r, None
            if len(a) >= 2 and isinstance(a[1], int):
                c = int(a[1])
                data = a[2] if len(a) > 2 else None
            elif len(a) >= 2:
                data = a[1]
            if data is None or isinstance(data, int) and data == 0:
                return Matrix(F, [[Integer(0)] * c for _ in range(r)], r, c)
            if callable(data):
                return Matrix(F, [[data(i, j) for j in range(c)] for i in range(r)], r, c)
            data = list(data)
            if data and hasattr(data[0], "__iter__"):
                return Matrix(F, data, r, c)
            return Matrix(F, [data[i * c:(i + 1) * c] for i in range(r)], r, c)
        data = list(a[0])
        if data and not hasattr(data[0], "__iter__"):
            data = [data]
        return Matrix(F, data)

    def circulant(self, v, sparse=None):
        v = list(v)
        n = len(v)
        return Matrix(None, [[v[(j - i) % n] for j in range(n)] for i in range(n)])

    def diagonal(self, *a, **k):
        a = list(a)
        F = a.pop(0) if isinstance(a[0], Field) else None
        d = list(a[0])
        return Matrix(F, [[d[i] if i == j else Integer(0) for j in range(len(d))] for i in range(len(d))])

    def identity(self, *a, **k):
        return identity(a[0], a[1]) if isinstance(a[0], Field) else identity(None, a[0])

    def zero(self, *a):
        a = list(a)
        F = a.pop(0) if isinstance(a[0], Field) else None
        return self(F, *a) if F else self(*a)

    def ones(self, *a):
        a = list(a)
        F = a.pop(0) if isinstance(a[0], Field) else None
        r, c = int(a[0]), int(a[-1])
        return Matrix(F, [[Integer(1)] * c for _ in range(r)])

    def block(self, rows, subdivide=None):
        out = []
        for br in rows:
            for i in range(br[0].nr):
                out.append([x for b in br for x in b.m[i]])
        return Matrix(None, out)


matrix = _MatrixMaker()


# ------------------------------------------------------------------ linear algebra on integers modulo p
def rref(rows, p):
    rows = [[x % p for x in r] for r in rows]
    out, piv, c = [], [], 0
    nc = len(rows[0]) if rows else 0
    r = 0
    for c in range(nc):
        k = next((i for i in range(r, len(rows)) if rows[i][c]), None)
        if k is None:
            continue
        rows[r], rows[k] = rows[k], rows[r]
        row = rows[r]
        if row[c] != 1:
            inv = pow(row[c], -1, p)
            row = rows[r] = [x * inv % p for x in row]
        for i in range(len(rows)):
            if i != r and rows[i][c]:
                f = rows[i][c]
                rows[i] = [(a - f * b) % p for a, b in zip(rows[i], row)]
        piv.append(c)
        r += 1
        if r == len(rows):
            break
    return rows[:r], piv


def determinant(m, p):
    m, n, d = [list(r) for r in m], len(m), 1
    for c in range(n):
        k = next((i for i in range(c, n) if m[i][c] % p), None)
        if k is None:
            return 0
        if k != c:
            m[c], m[k], d = m[k], m[c], -d
        d = d * m[c][c] % p
        inv = pow(m[c][c], -1, p)
        for i in range(c + 1, n):
            f = m[i][c] * inv % p
            if f:
                m[i] = [(a - f * b) % p for a, b in zip(m[i], m[c])]
    return d % p


def kernel(rows, nc, p):
    rows = [r for r in rows if any(r)]
    e, piv = rref(rows, p) if rows else ([], [])
    out = []
    for f in range(nc):
        if f in piv:
            continue
        v = [0] * nc
        v[f] = 1
        for r, c in zip(e, piv):
            v[c] = -r[f] % p
        out.append(v)
    return out


def _relation(m, v, p):
    """Minimal polynomial of the vector v under m, low degree first, monic."""
    n = len(m)
    basis = []  # (pivot, row, combination)
    w, k = list(v), 0
    while True:
        row, comb = [x % p for x in w], [0] * k + [1]
        for piv, b, c in basis:
            f = row[piv]
            if f:
                row = [(x - f * y) % p for x, y in zip(row, b)]
                for i, y in enumerate(c):
                    comb[i] = (comb[i] - f * y) % p
        piv = next((i for i, x in enumerate(row) if x), None)
        if piv is None:
            return comb
        inv = pow(row[piv], -1, p)
        basis.append((piv, [x * inv % p for x in row], [x * inv % p for x in comb]))
        w = [sum(map(int.__mul__, r, w)) % p for r in m]
        k += 1


def pmul(a, b, p):
    if not a or not b:
        return []
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] += x * y
    r = [x % p for x in r]
    while r and not r[-1]:
        r.pop()
    return r


def pdivmod(a, b, p):
    a = [x % p for x in a]
    while a and not a[-1]:
        a.pop()
    q = [0] * max(0, len(a) - len(b) + 1)
    inv = pow(b[-1], -1, p)
    while len(a) >= len(b):
        f = a[-1] * inv % p
        s = len(a) - len(b)
        q[s] = f
        for i, y in enumerate(b):
            a[s + i] = (a[s + i] - f * y) % p
        while a and not a[-1]:
            a.pop()
    return q, a


def pgcd(a, b, p):
    while b:
        a, b = b, pdivmod(a, b, p)[1]
    if a:
        inv = pow(a[-1], -1, p)
        a = [x * inv % p for x in a]
    return a


def ppow_x(e, f, p):
    """x^e mod f"""
    r = [1]
    for bit in bin(e)[2:]:
        r = pdivmod(pmul(r, r, p), f, p)[1]
        if bit == "1":
            r = pdivmod([0] + r, f, p)[1]
    return r


def minpoly(m, p):
    n = len(m)
    f, rng = [1], random.Random(p)
    for k in range(n + 3):
        v = [rng.randrange(p) for _ in range(n)] if k < 3 else [int(i == k - 3) for i in range(n)]
        # apply what is known, take the minimal polynomial of what is left
        w = [0] * n
        for c in reversed(f):
            w = [sum(map(int.__mul__, r, w)) % p for r in m]
            w = [(a + c * b) % p for a, b in zip(w, v)]
        if any(w):
            f = pmul(f, _relation(m, w, p), p)
        if len(f) == n + 1:
            break
    return f


def charpoly(m, p):
    f, n = minpoly(m, p), len(m)
    if len(f) == n + 1:
        return f
    # evaluate det(x - m) at n + 1 points and interpolate
    if p <= n:
        raise Missing("characteristic polynomial over a tiny field")
    xs = list(range(n + 1))
    ys = [determinant([[(x * (i == j) - m[i][j]) % p for j in range(n)] for i in range(n)], p) for x in xs]
    out = []
    for i, y in enumerate(ys):
        num, den = [1], 1
        for j in xs:
            if j != i:
                num, den = pmul(num, [-j % p, 1], p), den * (i - j) % p
        s = y * pow(den, -1, p) % p
        out = [(a + s * b) % p for a, b in zip(out + [0] * (n + 1 - len(out)), num)]
    return out


def roots(f, p):
    """Roots in the base field with multiplicities."""
    if len(f) <= 1:
        return []
    x = ppow_x(p, f, p)
    g = x + [0] * (2 - len(x))
    g[1] = (g[1] - 1) % p
    while g and not g[-1]:
        g.pop()
    h = pgcd(f, g, p) if g else f
    found, rng = [], random.Random(1)

    def split(h):
        if len(h) <= 1:
            return
        if len(h) == 2:
            found.append(-h[0] * pow(h[1], -1, p) % p)
            return
        if p == 2:
            for r in (0, 1):
                if sum(c * r ** i for i, c in enumerate(h)) % 2 == 0:
                    found.append(r)
            return
        while True:
            base, r = [rng.randrange(p), 1], [1]
            for bit in bin((p - 1) // 2)[2:]:
                r = pdivmod(pmul(r, r, p), h, p)[1]
                if bit == "1":
                    r = pdivmod(pmul(r, base, p), h, p)[1]
            r = r or [0]
            r[0] = (r[0] - 1) % p
            while r and not r[-1]:
                r.pop()
            d = pgcd(h, r, p) if r else h
            if 1 < len(d) < len(h):
                split(d)
                split(pdivmod(h, d, p)[0])
                return
    split(h)
    out = []
    for r in sorted(set(found)):
        k, q = 0, f
        while True:
            q2, rem = pdivmod(q, [-r % p, 1], p)
            if rem:
                break
            k, q = k + 1, q2
        out.append((r, k))
    return out


class Poly:
    def __init__(self, F, c):
        self.F, self.c = F, [x % F.p for x in c]

    def degree(self):
        return Integer(len(self.c) - 1)

    def is_monic(self):
        return self.c[-1] == 1

    def list(self):
        return [FE(self.F, x) for x in self.c]
    coefficients = list

    def is_irreducible(self):
        p, f = self.F.p, self.c
        n = len(f) - 1
        if n <= 0:
            return False
        if n == 1:
            return True
        # Frobenius by composition: x^(p^k) mod f
        frob = ppow_x(p, f, p)

        def compose(a, b):
            r = []
            for c in reversed(a):
                r = pdivmod(pmul(r, b, p), f, p)[1]
                r = r or [0]
                r[0] = (r[0] + c) % p
                while r and not r[-1]:
                    r.pop()
            return r

        def minus_x(a):
            a = a + [0] * (2 - len(a))
            a[1] = (a[1] - 1) % p
            while a and not a[-1]:
                a.pop()
            return a
        primes = [q for q in range(2, n + 1) if n % q == 0 and is_prime(q)]
        cur, k = frob, 1
        want = sorted({n // q for q in primes})
        for w in want:
            while k < w:
                cur, k = compose(cur, frob), k + 1
            d = minus_x(cur)
            if not d or len(pgcd(f, d, p)) > 1:
                return False
        while k < n:
            cur, k = compose(cur, frob), k + 1
        return not minus_x(cur)

    def roots(self, multiplicities=True):
        r = [(FE(self.F, a), Integer(k)) for a, k in roots(self.c, self.F.p)]
        return r if multiplicities else [a for a, _ in r]

    def __call__(self, x):
        r = x * 0
        for c in reversed(self.c):
            r = r * x + c
        return r

    def __eq__(self, o):
        return isinstance(o, Poly) and self.c == o.c

    __hash__ = None


class Space:
    def __init__(self, F, n, rows):
        self.F, self.n = F, int(n)
        rows = [[int(x) for x in r] for r in rows]
        self.e = rref(rows, F.p)[0] if rows else []

    def basis(self):
        return [Vector(self.F, r) for r in self.e]
    gens = basis

    def basis_matrix(self):
        return Matrix(self.F, self.e, len(self.e), self.n)
    matrix = basis_matrix

    def dimension(self):
        return Integer(len(self.e))
    rank = dimension

    def degree(self):
        return Integer(self.n)

    def zero(self):
        return Vector(self.F, [0] * self.n)

    def ambient_vector_space(self):
        return VectorSpace(self.F, self.n)

    def subspace(self, vs):
        return Space(self.F, self.n, [[int(self.F(x)) for x in v] for v in vs])
    span = subspace

    def __eq__(self, o):
        return isinstance(o, Space) and self.e == o.e

    __hash__ = None

    def __le__(self, o):
        return self.intersection(o) == self
    is_subspace = is_submodule = __le__

    def __contains__(self, v):
        return Space(self.F, self.n, self.e + [[int(x) for x in v]]).e == self.e

    def __add__(self, o):
        return Space(self.F, self.n, self.e + o.e)

    def intersection(self, o):
        if len(o.e) == self.n:
            return self
        if len(self.e) == self.n:
            return o
        # vectors orthogonal to both complements
        p = self.F.p
        rows = kernel(self.e, self.n, p) + kernel(o.e, self.n, p)
        return Space(self.F, self.n, kernel(rows, self.n, p))

    def __repr__(self):
        return "Vector space of degree %d and dimension %d" % (self.n, len(self.e))


def VectorSpace(F, n):
    return Space(F, n, [[int(i == j) for j in range(int(n))] for i in range(int(n))])


def powerset(x):
    x = list(x)
    for k in range(1 << len(x)):
        yield [v for i, v in enumerate(x) if k >> i & 1]


# ------------------------------------------------------------------ running a .sage file
def preparse(src):
    out, last = [], (1, 0)
    toks = list(tokenize.generate_tokens(io.StringIO(src.replace("^^", "__XOR__").replace("^", "**").replace("__XOR__", "^")).readline))
    res = []
    for t in toks:
        if t.type == tokenize.NUMBER and not any(c in t.string for c in ".jJ") and (t.string[:2].lower() in ("0x", "0b", "0o") or "e" not in t.string.lower()):
            res += [(tokenize.NAME, "Integer"), (tokenize.OP, "("), (tokenize.NUMBER, t.string.rstrip("r")), (tokenize.OP, ")")]
        else:
            res.append((t.type, t.string))
    return tokenize.untokenize(res)


class _Name(types.ModuleType):
    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Missing("sage." + a)


def environment():
    g = {"__name__": "__main__", "__builtins__": __builtins__}
    for n in ("Integer GF gcd lcm is_prime next_prime binomial vector matrix VectorSpace Matrix powerset").split():
        g[n] = globals()[n]
    g["Matrix"] = matrix
    g["GaloisField"] = GF
    g["IntegerModRing"] = g["Zmod"] = g["Integers"] = GF
    g["ZZ"] = lambda x=0: Integer(int(x))
    g["QQ"] = lambda x: rat(Fraction(x))
    g["RR"] = g["RDF"] = g["RealNumber"] = float
    g["identity_matrix"] = matrix.identity
    g["diagonal_matrix"] = matrix.diagonal
    g["zero_matrix"] = matrix.zero
    g["ones_matrix"] = matrix.ones
    g["block_matrix"] = matrix.block
    g["copy"] = lambda x: x.copy() if hasattr(x, "copy") else x
    g["oo"] = g["inf"] = g["infinity"] = math.inf
    g["log"] = lambda x, b=None: math.log(x) if b is None else math.log(x, b)
    g["sqrt"] = lambda x: Integer(x).sqrt() if isinstance(x, int) else math.sqrt(x)
    g["ceil"] = lambda x: Integer(math.ceil(x))
    g["floor"] = lambda x: Integer(math.floor(x))
    g["prod"] = lambda xs: math.prod(xs)
    g["power_mod"] = lambda a, b, m: Integer(pow(int(a), int(b), int(m)))
    g["inverse_mod"] = lambda a, m: Integer(pow(int(a), -1, int(m)))
    g["euler_phi"] = lambda x: Integer(x - 1) if is_prime(x) else (_ for _ in ()).throw(Missing("euler_phi"))
    g["set_random_seed"] = random.seed
    g["xgcd"] = lambda a, b: (_ for _ in ()).throw(Missing("xgcd"))

    def mod(name, **names):
        m = _Name(name)
        for k, v in names.items():
            setattr(m, k, v)
        sys.modules[name] = m
        return m
    sage = mod("sage", __path__=[])
    misc = mod("sage.misc", __path__=[])
    misc.misc = mod("sage.misc.misc", powerset=powerset)
    rings = mod("sage.rings", __path__=[])
    poly = mod("sage.rings.polynomial", __path__=[])
    poly.polynomial_gf2x = mod("sage.rings.polynomial.polynomial_gf2x", GF2X_BuildIrred_list=lambda *a: None)
    rings.polynomial = poly
    sage.misc, sage.rings = misc, rings
    comb = mod("sage.combinat", __path__=[])
    comb.subset = mod("sage.combinat.subset", powerset=powerset)
    sage.combinat = comb
    allm = mod("sage.all", **{k: v for k, v in g.items() if not k.startswith("__")})
    sage.all = allm
    g["sage"] = sage
    return g


def constant(node):
    """The integer a node spells, or None."""
    try:
        return int(eval(compile(ast.Expression(node), "?", "eval"), {"Integer": int, "__builtins__": {}}))
    except Exception:
        return None


def load(path, settings):
    """Preparse, and give the first module-level assignment of each setting the wanted value. Returns code, names found."""
    tree = ast.parse(preparse(open(path).read()))
    found = set()
    for node in tree.body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
            n = node.targets[0].id
            if n in settings and n not in found and constant(node.value) is not None:
                node.value = ast.copy_location(ast.parse("Integer(%d)" % settings[n], mode="eval").body, node.value)
                ast.fix_missing_locations(node)
                found.add(n)
    return compile(tree, path, "exec"), found


def run(path, settings):
    """Output of the script with these settings, and which of them it has."""
    code, found = load(path, settings)
    old, sys.stdout = sys.stdout, io.StringIO()
    try:
        try:
            exec(code, environment())
        except SystemExit:
            pass
        return sys.stdout.getvalue(), found
    finally:
        sys.stdout = old
