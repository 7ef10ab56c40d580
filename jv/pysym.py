"""Symbolic execution of plain Python and numpy code.

Python integers become SI (a term), numpy arrays become SArr (an object array
of ints and SIs with a machine dtype).  Truth tests on symbolic values fork:
the function is run once per feasible sequence of decisions.
"""

import contextlib
import copy
import math
import types as pytypes

import numpy as np

from jv import jaxsym as J
from jv import smt
from jv import terms as T
from jv.terms import Sym, Unsupported
from jv.harness import Arr, OUTCOMES, NOT_OUTCOMES, obj, patched

EX = None   # current explorer


class Explorer:

  def __init__(self, prefix, cache):
    self.prefix, self.cache = prefix, cache
    self.dec, self.pc, self.keys = [], [], []
    self.forks = []
    self.prims = {}
    self.side = []
    self.zeros, self.others = [], []   # for EQHOOK

  def fork(self, t):
    """Like decide, for conditions the caller cannot settle."""
    if not isinstance(t, Sym):
      return bool(t)
    k = T.p_key(t.p)
    for kk, d in self.keys:
      if kk == k:
        return d
    i = len(self.dec)
    d = True
    if i < len(self.prefix):
      d = self.prefix[i]
    else:
      self.forks.append(i)
    self.dec.append(d)
    self.keys.append((k, d))
    self.pc.append(smt.B(t) if d else smt.Not(smt.B(t)))
    return d

  def decide(self, t):
    """Truth of 0/1 term t on this path."""
    if not isinstance(t, Sym):
      return bool(t)
    k = T.p_key(t.p)
    for kk, d in self.keys:
      if kk == k:
        return d
    i = len(self.dec)
    both = True
    if i < len(self.prefix):
      d = self.prefix[i]
      both = False
    else:
      if self.never(t):
        d, both = False, False
      elif self.never(T.b_not(t)):
        d, both = True, False
      else:
        d = True
    if both:
      self.forks.append(i)
    self.dec.append(d)
    self.keys.append((k, d))
    self.pc.append(smt.B(t) if d else smt.Not(smt.B(t)))
    return d

  def never(self, t):
    if not isinstance(t, Sym):
      return not t
    key = (tuple(self.keys), T.p_key(t.p))
    r = self.cache.get(key)
    if r is None:
      f = self.pc + [smt.B(t)] + T.CTX.assumptions
      txt, _, _ = smt.build(f)
      r = smt.run_solver(txt, [], 20)[0] == 'unsat'
      self.cache[key] = r
    return r

  def choose(self, t, limit=130):
    if not isinstance(t, Sym):
      return int(t)
    if t.hi - t.lo > limit:
      raise Unsupported('symbolic value used as a concrete integer')
    for v in range(t.lo, t.hi):
      if self.decide(T.eq(t, v)):
        return v
    return t.hi


class Infeasible(Exception):
  """No input takes the current path."""


class Flat(list):
  zeros = ()


def tm(x):
  """Term of a Python value."""
  if isinstance(x, SI):
    return x.t
  if isinstance(x, (bool, int, np.integer, np.bool_)):
    return int(x)
  if isinstance(x, SArr) and x.a.size == 1:
    return tm(x.a.ravel()[0])
  if isinstance(x, np.ndarray) and x.size == 1:
    return int(x.ravel()[0])
  if isinstance(x, float) and x.is_integer():
    return int(x)
  raise TypeError(f'not an integer: {type(x).__name__}')


def si(t):
  return SI(t) if isinstance(t, Sym) else int(t)


def sb(t):
  return SI(t) if isinstance(t, Sym) else bool(t)


def isnum(x):
  return isinstance(x, (SI, int, np.integer, np.bool_))


def _binop(f):
  def g(self, o):
    if not isnum(o):
      return NotImplemented
    return si(f(self.t, tm(o)))

  def r(self, o):
    if not isnum(o):
      return NotImplemented
    return si(f(tm(o), self.t))
  return g, r


def i_floordiv(a, b):
  if isinstance(b, Sym):
    if EX.decide(T.eq(b, 0)):
      raise ZeroDivisionError('integer division or modulo by zero')
    if EX.decide(T.ge(b, 1)):
      return T.divmod_sym(a, T.mk(b.p, max(b.lo, 1), b.hi))[0]
    return T.divmod_sym(T.sub(0, a), T.mk(
        T.p_scale(b.p, -1), max(-b.hi, 1), -b.lo))[0]
  return T.floordiv(a, b) if b > 0 or b == 0 else T.floordiv(
      T.sub(0, a), -b)


def i_mod(a, b):
  if not isinstance(b, Sym) and b > 0:
    r = MODHOOK(a, b) if MODHOOK is not None else None
    return T.mod(a, b) if r is None else r
  return T.sub(a, T.mul(i_floordiv(a, b), b))


def i_shl(a, k):
  if isinstance(k, Sym):
    k = EX.choose(k, 600)
  if k < 0:
    raise ValueError('negative shift count')
  return T.mul(a, 1 << k)


def i_shr(a, k):
  if isinstance(k, Sym):
    k = EX.choose(k, 600)
  if k < 0:
    raise ValueError('negative shift count')
  return T.floordiv(a, 1 << k)


def i_and(a, b):
  if not isinstance(a, Sym) and not isinstance(b, Sym):
    return int(a) & int(b)
  if not isinstance(a, Sym):
    a, b = b, a
  if not isinstance(b, Sym):
    if b == 0:
      return 0
    if b < 0:
      # a & -c = a - (a & (c-1))  with c-1 = ~b
      return T.sub(a, i_and(a, ~b))
    out, i = [], 0
    while b >> i:
      if not (b >> i) & 1:
        i += 1
        continue
      j = i
      while (b >> j) & 1:
        j += 1
      part = T.mod(T.floordiv(a, 1 << i), 1 << (j - i))
      out.append(T.mul(part, 1 << i))
      i = j
    return T.total(out)
  if a.p == b.p:
    return a
  for u, v in ((a, b), (b, a)):
    if u.lo >= 0 and u.hi <= 1:
      return T.b_and(u, T.clampb(T.mod(v, 2)))
  if a.lo < 0 or b.lo < 0:
    n = max(max(abs(x.lo), abs(x.hi)) for x in (a, b)).bit_length() + 1
    if n > 64:
      raise Unsupported('wide bitwise operation')
    bs = [T.b_and(x, y) for x, y in zip(J.bits_of(a, n), J.bits_of(b, n))]
    return T.total([T.mul(x, 1 << i if i < n - 1 else -(1 << i))
                    for i, x in enumerate(bs)])
  for u, v in ((a, b), (b, a)):
    if u.hi < (1 << low_zero(v)):
      return 0
  n = min(a.hi, b.hi).bit_length()
  if n > 64:
    raise Unsupported('wide bitwise operation')
  return T.total([T.mul(T.b_and(x, y), 1 << i) for i, (x, y) in enumerate(
      zip(J.bits_of(a, n), J.bits_of(b, n)))])


def low_zero(x):
  g = 0
  for c in T.poly(x).values():
    g |= c
  return (g & -g).bit_length() - 1 if g else 10**6


def i_or(a, b):
  return T.sub(T.add(a, b), i_and(a, b))


def i_xor(a, b):
  return T.sub(T.add(a, b), T.mul(2, i_and(a, b)))


def i_powmod(a, e, m):
  """a ** e mod m for concrete e, m."""
  if isinstance(e, Sym) or isinstance(m, Sym):
    raise Unsupported('symbolic exponent or modulus')
  if m == 0:
    raise ValueError('pow() 3rd argument cannot be 0')
  if not isinstance(a, Sym):
    return pow(int(a), e, m)
  if POWMOD is not None:
    r = POWMOD(a, e, m)
    if r is not None:
      return r
  if e < 0:
    return i_powmod(inverse(a, m), -e, m)
  r = 1
  for bit in bin(e)[2:] if e else '':
    r = T.mod(T.mul(r, r), m)
    if bit == '1':
      r = T.mod(T.mul(r, a), m)
    r = T.name(r) if isinstance(r, Sym) and len(r.p) > 40 else r
  return T.mod(r, m)


MODHOOK = None    # optional: f(a, m) -> term equal to a mod m, or None
EQHOOK = None     # optional: f(explorer, a, b) -> bool, or None
POWMOD = None     # optional contract for modular powers: f(a, e, m) -> term


def inverse(a, m):
  """pow(a, -1, m) for symbolic a: tabulated, small m only."""
  r = T.mod(a, m)
  if not isinstance(r, Sym):
    return pow(int(r), -1, m)
  if m > 64:
    raise Unsupported('symbolic inverse modulo a large modulus')
  unit = [v for v in range(m) if math.gcd(v, m) == 1]
  ok = T.total([T.eq(r, v) for v in unit])
  if not EX.decide(T.clampb(ok)):
    raise ValueError('base is not invertible for the given modulus')
  return T.mk(T.poly(T.total(
      [T.mul(T.eq(r, v), pow(v, -1, m)) for v in unit])), 0, m - 1)


class SI:
  """Symbolic Python integer."""
  __slots__ = ('t',)
  __array_ufunc__ = None

  def __init__(self, t):
    self.t = t

  __add__, __radd__ = _binop(T.add)
  __sub__, __rsub__ = _binop(T.sub)
  __mul__, __rmul__ = _binop(T.mul)
  __floordiv__, __rfloordiv__ = _binop(i_floordiv)
  __mod__, __rmod__ = _binop(i_mod)
  __lshift__, __rlshift__ = _binop(i_shl)
  __rshift__, __rrshift__ = _binop(i_shr)
  __and__, __rand__ = _binop(i_and)
  __or__, __ror__ = _binop(i_or)
  __xor__, __rxor__ = _binop(i_xor)

  def __divmod__(self, o):
    return self // o, self % o

  def __rdivmod__(self, o):
    return o // self, o % self

  def __truediv__(self, o):
    if isinstance(o, Capture):
      return NotImplemented
    raise Unsupported('true division of symbolic integers')

  def __rtruediv__(self, o):
    raise Unsupported('true division of symbolic integers')

  def __neg__(self):
    return si(T.sub(0, self.t))

  def __pos__(self):
    return self

  def __abs__(self):
    if self.t.lo >= 0:
      return self
    return si(T.ite(T.ge(self.t, 0), self.t, T.sub(0, self.t)))

  def __invert__(self):
    return si(T.sub(-1, self.t))

  def __pow__(self, e, m=None):
    if m is None:
      e = tm(e)
      if isinstance(e, Sym):
        e = EX.choose(e)
      r = 1
      for _ in range(e):
        r = T.mul(r, self.t)
      return si(r)
    return si(i_powmod(self.t, tm(e), tm(m)))

  def __rpow__(self, b, m=None):
    e = EX.choose(self.t)
    return pow(b, e) if m is None else pow(b, e, m)

  def __eq__(self, o):
    if isnum(o) and EQHOOK is not None:
      r = EQHOOK(EX, self.t, tm(o))
      if r is not None:
        return r
    return sb(T.eq(self.t, tm(o))) if isnum(o) else NotImplemented

  def __ne__(self, o):
    if isnum(o) and EQHOOK is not None:
      r = EQHOOK(EX, self.t, tm(o))
      if r is not None:
        return not r
    return sb(T.b_not(T.eq(self.t, tm(o)))) if isnum(o) else NotImplemented

  def __ge__(self, o):
    return sb(T.ge(self.t, tm(o))) if isnum(o) else NotImplemented

  def __le__(self, o):
    return sb(T.ge(tm(o), self.t)) if isnum(o) else NotImplemented

  def __gt__(self, o):
    return sb(T.b_not(T.ge(tm(o), self.t))) if isnum(o) else NotImplemented

  def __lt__(self, o):
    return sb(T.b_not(T.ge(self.t, tm(o)))) if isnum(o) else NotImplemented

  def __bool__(self):
    return EX.decide(T.b_not(T.eq(self.t, 0)))

  def __round__(self, nd=None):
    return self

  def __trunc__(self):
    return self

  def __index__(self):
    return EX.choose(self.t)

  def __int__(self):
    raise Unsupported('int() of a symbolic integer')

  def __float__(self):
    raise Unsupported('float() of a symbolic integer')

  def __hash__(self):
    if EX is None:
      raise Unsupported('hash of a symbolic integer')
    return hash(EX.choose(self.t, 300))

  def __str__(self):
    return '<symbolic>'

  __repr__ = __str__

  def __format__(self, spec):
    return '<symbolic>'

  def __copy__(self):
    return self

  def __deepcopy__(self, memo):
    return self

  def bit_length(self):
    a = abs(self).t if self.t.lo < 0 else self.t
    n = max(T.hi_(a), 0).bit_length()
    return si(T.total([T.ge(a, 1 << i) for i in range(n)]))

  def bit_count(self):
    a = abs(self)
    a = a.t if isinstance(a, SI) else a
    return si(T.total(J.bits_of(a, max(T.hi_(a), 0).bit_length())))

  def item(self):
    return self

  def tolist(self):
    return self

  def astype(self, dt):
    return SArr(_one(self), np.dtype('int64')).astype(dt)

  @property
  def value(self):
    raise AttributeError('value')

  @property
  def shape(self):
    return ()

  conjugate = real = property(lambda self: self)


class Capture:
  """A divisor that records what is divided by it and yields 0.0."""

  def __init__(self):
    self.seen = []

  def __rtruediv__(self, c):
    self.seen.append(c)
    return 0.0


def _one(v):
  o = np.empty((), object)
  o[()] = v
  return o


# ------------------------------------------------------------------- arrays
def is_sym(x):
  if isinstance(x, (SI, SArr)):
    return True
  if isinstance(x, (list, tuple)):
    return any(is_sym(v) for v in x)
  if isinstance(x, np.ndarray) and x.dtype == object:
    return any(is_sym(v) for v in x.ravel())
  return False


WEAK = 'weak'


def _conv(x):
  """(object ndarray, dtype or WEAK) of nested data."""
  if isinstance(x, SArr):
    return x.a, x.sd
  if isinstance(x, SI):
    return _one(x), WEAK
  if isinstance(x, (bool, np.bool_)):
    return _one(bool(x)), np.dtype(bool)
  if isinstance(x, np.generic):
    if x.dtype.kind not in 'iub':
      raise Unsupported(f'dtype {x.dtype}')
    return _one(int(x)), x.dtype
  if isinstance(x, int):
    return _one(x), WEAK
  if isinstance(x, (list, tuple)):
    parts = [_conv(v) for v in x]
    if not parts:
      return np.empty((0,), object), np.dtype('float64')
    a = np.stack([p[0] for p in parts])
    dts = [p[1] for p in parts if p[1] is not WEAK]
    if not dts:
      return a, WEAK
    if len(dts) < len(parts):
      dts.append(np.dtype('int64'))
    return a, np.result_type(*dts)
  x = np.asarray(x)
  if x.dtype == object:
    return x, np.dtype(object)
  if x.dtype.kind == 'f' and not np.any(x):
    return x.astype(int).astype(object), np.dtype('int64')
  if x.dtype.kind not in 'iub':
    raise Unsupported(f'dtype {x.dtype}')
  return x.astype(object), x.dtype


def _wrap(a, dt):
  """Wrap exact elements to dtype dt."""
  dt = np.dtype(dt)
  if dt == object:
    return a
  if dt.kind == 'b':
    return _map(lambda v: v if isinstance(v, bool) else (
        v != 0), a)
  if dt.kind not in 'iu':
    raise Unsupported(f'dtype {dt}')
  return _map(lambda v: si(J.ex(J.wrap(tm(v), dt), dt)), a)


def _map(f, a):
  o = np.empty(a.shape, object)
  for i in np.ndindex(*a.shape):
    o[i] = f(a[i])
  return o


def _fit(a, dt):
  """Python integers stored into dtype: out of range raises."""
  dt = np.dtype(dt)
  if dt == object or dt.kind == 'b':
    return a
  if dt.kind not in 'iu':
    raise Unsupported(f'dtype {dt}')
  lo, hi = J.dt_range(dt)
  for v in a.ravel():
    t = tm(v)
    if T.lo_(t) < lo or T.hi_(t) > hi:
      ok = T.b_and(T.ge(t, lo), T.ge(hi, t))
      if not EX.decide(ok):
        raise OverflowError('Python integer out of bounds for ' + str(dt))
  return a


def _idx(i):
  if isinstance(i, tuple):
    return tuple(_idx(v) for v in i)
  if isinstance(i, SArr):
    return i.concrete()
  if isinstance(i, SI):
    return EX.choose(i.t)
  if isinstance(i, list):
    return [_idx(v) for v in i]
  return i


_UF = {
    'add': T.add, 'subtract': T.sub, 'multiply': T.mul,
    'floor_divide': i_floordiv, 'remainder': i_mod, 'mod': i_mod,
    'left_shift': i_shl, 'right_shift': i_shr, 'bitwise_and': i_and,
    'bitwise_or': i_or, 'bitwise_xor': i_xor,
    'maximum': lambda a, b: T.ite(T.ge(a, b), a, b),
    'minimum': lambda a, b: T.ite(T.ge(a, b), b, a),
}
_CMP = {
    'equal': T.eq, 'not_equal': lambda a, b: T.b_not(T.eq(a, b)),
    'greater_equal': T.ge, 'less_equal': lambda a, b: T.ge(b, a),
    'greater': lambda a, b: T.b_not(T.ge(b, a)),
    'less': lambda a, b: T.b_not(T.ge(a, b)),
    'logical_and': T.b_and, 'logical_or': T.b_or,
}


def _rdt(name, d1, d2):
  if d1 is WEAK and d2 is WEAK:
    return np.dtype('int64')
  if np.dtype(object) in [d for d in (d1, d2) if d is not WEAK]:
    return np.dtype(object)
  uf = getattr(np, name)
  r = uf.resolve_dtypes((int if d1 is WEAK else d1,
                         int if d2 is WEAK else d2, None))
  return r[-1]


def binary(name, x, y):
  if EX is not None:
    EX.prims['np.' + name] = EX.prims.get('np.' + name, 0) + 1
  a, da = _conv(x)
  b, db = _conv(y)
  sh = np.broadcast_shapes(a.shape, b.shape)
  if name in _CMP:
    f, rd = _CMP[name], np.dtype(bool)
  else:
    f, rd = _UF[name], _rdt(name, da, db)
    if rd.kind == 'f':
      raise Unsupported(f'{name} of {da} and {db} is a float')
    if da is WEAK and rd != object:
      a = _fit(a, rd)
    if db is WEAK and rd != object:
      b = _fit(b, rd)
  a, b = np.broadcast_to(a, sh), np.broadcast_to(b, sh)
  o = np.empty(sh, object)
  for i in np.ndindex(*sh):
    u, v = tm(a[i]), tm(b[i])
    if name in ('remainder', 'mod', 'floor_divide') and rd != object and (
        not isinstance(v, Sym) and v == 0):
      o[i] = 0
      continue
    if name in ('left_shift', 'right_shift') and rd != object:
      w = J.dt_info(rd)[0]
      if not isinstance(v, Sym) and v >= w:
        o[i] = 0 if name == 'left_shift' or T.lo_(u) >= 0 else si(
            T.floordiv(u, 1 << w))
        continue
    r = f(u, v)
    o[i] = sb(r) if name in _CMP else si(r)
  if name not in _CMP:
    o = _wrap(o, rd)
  return SArr(o, rd)


def _dunder(name):
  def g(self, o):
    if isinstance(o, (str, type(None))):
      return NotImplemented
    return binary(name, self, o)

  def r(self, o):
    return binary(name, o, self)
  return g, r


class SArr:
  """numpy array of exact integers with a machine dtype."""
  __array_priority__ = 1000

  def __init__(self, a, sd):
    self.a, self.sd = a, np.dtype('int64') if sd is WEAK else np.dtype(sd)

  # structure
  shape = property(lambda s: s.a.shape)
  ndim = property(lambda s: s.a.ndim)
  size = property(lambda s: s.a.size)
  dtype = property(lambda s: s.sd)
  T = property(lambda s: SArr(s.a.T, s.sd))
  at = property(lambda s: _At(s))

  def _n(self, a):
    return SArr(a, self.sd)

  def reshape(self, *sh, **kw):
    sh = sh[0] if len(sh) == 1 and isinstance(sh[0], (tuple, list)) else sh
    return self._n(self.a.reshape(tuple(int(v) for v in sh)))

  def ravel(self):
    return self._n(self.a.ravel())

  def flatten(self):
    return self._n(self.a.flatten())

  def transpose(self, *ax):
    return self._n(self.a.transpose(*ax))

  def squeeze(self, *a, **k):
    return self._n(self.a.squeeze(*a, **k))

  def copy(self):
    return self._n(self.a.copy())

  def astype(self, dt, **kw):
    dt = np.dtype(getattr(dt, 'real_dtype', dt))
    return SArr(_wrap(self.a.copy(), dt), dt)

  def tolist(self):
    return self.a.tolist()

  def item(self, *i):
    return self.a.item(*i)

  def view(self, dt=None):
    raise Unsupported('view of a symbolic array')

  def sum(self, axis=None, **kw):
    return np_sum(self, axis=axis, **kw)

  def all(self, axis=None):
    r = True
    for v in self.a.ravel():
      r = v if r is True else (r & v if v is not True else r)
    return r

  def any(self, axis=None):
    r = False
    for v in self.a.ravel():
      r = v if r is False else (r | v if v is not False else r)
    return r

  def __len__(self):
    return len(self.a)

  def __iter__(self):
    for i in range(len(self.a)):
      yield self[i]

  def __getitem__(self, i):
    r = self.a[_idx(i)]
    if isinstance(r, np.ndarray):
      return self._n(r)
    return SArr(_one(r), self.sd) if self.sd != object else r

  def __setitem__(self, i, v):
    a, d = _conv(v)
    if self.sd != object:
      a = _fit(a, self.sd) if d is WEAK else _wrap(a, self.sd)
    if a.ndim == 0:
      i = _idx(i)
      sub = self.a[i]
      if isinstance(sub, np.ndarray):
        fill = np.empty(sub.shape, object)
        fill.fill(a[()])
        self.a[i] = fill
      else:
        self.a[i] = a[()]
    else:
      self.a[_idx(i)] = a

  def concrete(self):
    if any(isinstance(v, SI) for v in self.a.ravel()):
      a = _map(lambda v: EX.choose(v.t) if isinstance(v, SI) else v, self.a)
    else:
      a = self.a
    return a.astype(self.sd if self.sd != object else np.int64)

  def __array__(self, dtype=None, copy=None):
    if any(isinstance(v, SI) for v in self.a.ravel()):
      raise Unsupported('symbolic array passed to compiled numpy code')
    return self.concrete().astype(dtype) if dtype else self.concrete()

  def __bool__(self):
    if self.a.size != 1:
      raise ValueError('truth value of an array is ambiguous')
    return bool(self.a.ravel()[0])

  def __index__(self):
    v = self.a.item()
    return v.__index__()

  def __int__(self):
    v = self.a.item()
    if isinstance(v, SI):
      raise Unsupported('int() of a symbolic array element')
    return int(v)

  def __array_ufunc__(self, uf, method, *args, **kw):
    if method != '__call__' or len(args) != 2 or (
        uf.__name__ not in _UF and uf.__name__ not in _CMP):
      raise Unsupported(f'ufunc {uf.__name__}.{method}')
    return binary(uf.__name__, *args)

  def __array_function__(self, func, types, args, kw):
    h = HANDLERS.get(func.__name__)
    if h is None:
      raise Unsupported(f'numpy function {func.__name__}')
    return h(*args, **kw)

  __add__, __radd__ = _dunder('add')
  __sub__, __rsub__ = _dunder('subtract')
  __mul__, __rmul__ = _dunder('multiply')
  __floordiv__, __rfloordiv__ = _dunder('floor_divide')
  __mod__, __rmod__ = _dunder('remainder')
  __lshift__, __rlshift__ = _dunder('left_shift')
  __rshift__, __rrshift__ = _dunder('right_shift')
  __and__, __rand__ = _dunder('bitwise_and')
  __or__, __ror__ = _dunder('bitwise_or')
  __xor__, __rxor__ = _dunder('bitwise_xor')
  __eq__, _ = _dunder('equal')
  __ne__, _ = _dunder('not_equal')
  __ge__, _ = _dunder('greater_equal')
  __le__, _ = _dunder('less_equal')
  __gt__, _ = _dunder('greater')
  __lt__, _ = _dunder('less')
  __hash__ = None

  def __neg__(self):
    return SArr(_wrap(_map(lambda v: -v, self.a), self.sd), self.sd)

  def __pow__(self, e, m=None):
    raise Unsupported('power of an array')

  def __repr__(self):
    return f'SArr{self.shape}:{self.sd}'


class _At:

  def __init__(self, s):
    self.s = s

  def __getitem__(self, i):
    return _AtI(self.s, i)


class _AtI:

  def __init__(self, s, i):
    self.s, self.i = s, i

  def set(self, v):
    r = self.s.copy()
    r[self.i] = v if not isinstance(v, (int, SI)) else SArr(_one(v), 'int64')
    return r

  def add(self, v):
    r = self.s.copy()
    r[self.i] = r[self.i] + v
    return r


# ----------------------------------------------------------- numpy functions
def np_array(x, dtype=None, copy=True, **kw):
  dtype = getattr(dtype, 'real_dtype', dtype)
  if dtype is not None and np.dtype(dtype).kind in 'fc':
    if is_sym(x):
      raise Unsupported('float array of symbolic values')
    return np.array(_plain(x), dtype=dtype)
  if not is_sym(x):
    x = np.array(_plain(x), dtype=None if dtype is None else (
        dtype if not isinstance(x, np.ndarray) else None))
    if x.dtype.kind not in 'iubO':
      return x.astype(dtype) if dtype is not None else x
  a, d = _conv(x)
  if dtype is None:
    dtype = np.dtype('int64') if d is WEAK else d
    if d is WEAK:
      # numpy: int64, or object/uint64 when it does not fit
      _fit(a, dtype)
    return SArr(a.copy(), dtype)
  dt = np.dtype(dtype)
  if d is WEAK or d == object:
    return SArr(_fit(a.copy(), dt) if dt.kind != 'b' else _wrap(a, dt), dt)
  return SArr(_wrap(a.copy(), dt), dt)


def _plain(x):
  if isinstance(x, SArr):
    return x.concrete()
  if isinstance(x, (list, tuple)):
    return [_plain(v) for v in x]
  return x


def _filled(sh, v, dt):
  sh = (sh,) if isinstance(sh, (int, np.integer)) else tuple(
      int(s) for s in sh)
  a = np.empty(sh, object)
  a.fill(v)
  return SArr(a, dt)


def _cre(v):
  def f(shape, dtype=None, **kw):
    if dtype is None or np.dtype(dtype).kind in 'fc':
      return np.full(shape, v, dtype=dtype or float)
    return _filled(shape, v, dtype)
  return f


def np_full(shape, v, dtype=None, **kw):
  if dtype is None:
    dtype = v.sd if isinstance(v, SArr) else 'int64'
  return _filled(shape, v.a.item() if isinstance(v, SArr) else v, dtype)


def _like(v):
  def f(x, dtype=None, **kw):
    return _filled(x.shape, v, dtype or x.dtype)
  return f


def _many(name):
  real = getattr(np, name)

  def f(xs, *args, **kw):
    kw.pop('dtype', None)
    parts = [_conv(x) for x in xs]
    dts = [np.dtype('int64') if d is WEAK else d for _, d in parts]
    dt = np.result_type(*dts)
    return SArr(_wrap(real([p[0] for p in parts], *args, **kw), dt), dt)
  return f


def _shape(name):
  real = getattr(np, name)

  def f(x, *args, **kw):
    a, d = _conv(x)
    r = real(a, *[_idx(v) for v in args], **kw)
    if isinstance(r, (list, tuple)):
      return type(r)(SArr(v, d) for v in r)
    return SArr(r, d)
  return f


def np_sum(x, axis=None, dtype=None, keepdims=False, **kw):
  a, d = _conv(x)
  d = np.dtype('int64') if d is WEAK else d
  if dtype is not None:
    rd = np.dtype(dtype)
  elif d == object:
    rd = d
  elif d.kind == 'b':
    rd = np.dtype('int64')
  else:
    rd = np.sum(np.zeros(1, d)).dtype
  r = np.sum(a, axis=None if axis is None else _idx(axis), keepdims=keepdims)
  r = r if isinstance(r, np.ndarray) else _one(r)
  return SArr(_wrap(r, rd), rd)


def np_where(c, a, b):
  ca, _ = _conv(c)
  xa, da = _conv(a)
  xb, db = _conv(b)
  rd = _rdt('add', da, db)
  sh = np.broadcast_shapes(ca.shape, xa.shape, xb.shape)
  ca, xa, xb = [np.broadcast_to(v, sh) for v in (ca, xa, xb)]
  o = np.empty(sh, object)
  for i in np.ndindex(*sh):
    o[i] = si(T.ite(T.b_not(T.eq(tm(ca[i]), 0)), tm(xa[i]), tm(xb[i])))
  return SArr(_wrap(o, rd), rd)


def np_matmul(x, y, **kw):
  a, da = _conv(x)
  b, db = _conv(y)
  rd = _rdt('multiply', da, db)
  pt = kw.get('preferred_element_type')
  if pt is not None:
    rd = np.dtype(pt)
  if a.ndim == 1 and b.ndim == 1:
    return SArr(_wrap(_one(si(T.dot([tm(v) for v in a], [tm(v) for v in b]))),
                      rd), rd)
  r = np.matmul(a, b)
  return SArr(_wrap(r, rd), rd)


def np_array_equal(a, b):
  x, y = _conv(a)[0], _conv(b)[0]
  if x.shape != y.shape:
    return False
  return binary('equal', SArr(x, object), SArr(y, object)).all()


def np_outer(a, b):
  x, y = (v if isinstance(v, SArr) else np_array(v) for v in (a, b))
  return binary('multiply', x.reshape(-1, 1), y.reshape(1, -1))


def np_pad(x, width, mode='constant', constant_values=0, **kw):
  if mode != 'constant':
    raise Unsupported('pad mode')
  a, d = _conv(x)
  return SArr(np.pad(a, width, constant_values=constant_values), d)


HANDLERS = {
    'array': np_array, 'asarray': np_array, 'zeros': _cre(0), 'ones': _cre(1),
    'empty': _cre(0), 'full': np_full, 'zeros_like': _like(0),
    'ones_like': _like(1), 'empty_like': _like(0), 'sum': np_sum,
    'where': np_where, 'matmul': np_matmul, 'dot': np_matmul,
    'array_equal': np_array_equal, 'outer': np_outer, 'pad': np_pad,
    'any': lambda x, **k: x.any() if isinstance(x, SArr) else np.any(x),
    'all': lambda x, **k: x.all() if isinstance(x, SArr) else np.all(x),
    'shape': lambda x: x.shape if hasattr(x, 'shape') else np.shape(x),
    'column_stack': lambda xs: _many('stack')(xs, axis=1) if all(
        getattr(x, 'ndim', 1) == 1 for x in xs) else _many(
            'concatenate')(xs, axis=1),
}
for _n in ('stack', 'concatenate', 'vstack', 'hstack'):
  HANDLERS[_n] = _many(_n)
for _n in ('reshape', 'transpose', 'tile', 'repeat', 'flip', 'roll',
           'moveaxis', 'expand_dims', 'squeeze', 'broadcast_to', 'ravel',
           'swapaxes', 'take', 'split', 'fliplr', 'flipud'):
  HANDLERS[_n] = _shape(_n)
for _n in list(_UF) + list(_CMP):
  HANDLERS[_n] = (lambda nm: lambda a, b, **k: binary(nm, a, b))(_n)

ALWAYS = {'array', 'asarray', 'zeros', 'ones', 'empty', 'full', 'zeros_like',
          'ones_like', 'empty_like'}


class NP:
  """Stands for the numpy (or jax.numpy) module."""

  def __init__(self, real=np):
    self._real = real

  def __getattr__(self, name):
    real = getattr(self._real, name) if hasattr(
        self._real, name) else getattr(np, name)
    h = HANDLERS.get(name)
    if h is None:
      return real

    def f(*args, **kw):
      if name in ALWAYS or any(is_sym(v) for v in args) or any(
          is_sym(v) for v in kw.values()):
        kw = {k: _dt(v) for k, v in kw.items()}
        return h(*[_dt(v) for v in args], **kw)
      if self._real is not np:
        return getattr(np, name)(*args, **kw)
      return real(*args, **kw)
    return f


def _dt(v):
  """jnp scalar types as dtypes."""
  if isinstance(v, type) or (hasattr(v, 'dtype') and callable(v) and not
                             isinstance(v, (SArr, np.ndarray))):
    try:
      return np.dtype(getattr(v, 'dtype', v))
    except TypeError:
      return v
  return v


class _IntMeta(type):

  def __instancecheck__(cls, x):
    return isinstance(x, (int, SI))

  def __subclasscheck__(cls, c):
    return issubclass(c, int)


class PyInt(metaclass=_IntMeta):
  """Stands for int while tracing."""

  def __new__(cls, x=0, *a):
    if isinstance(x, SI):
      return x
    if isinstance(x, SArr):
      return x.a.item()
    f = getattr(type(x), '__int__', None)
    if f is not None and not isinstance(x, (int, float, np.generic,
                                            np.ndarray, str)):
      v = f(x) if not hasattr(x, 'value') else PyInt(x.value)
      return v
    return int(x, *a)

  from_bytes = int.from_bytes


class _MpzMeta(type):

  def __instancecheck__(cls, x):
    import gmpy2
    return isinstance(x, (SI, gmpy2.mpz().__class__, int)) and not (
        type(x) is bool)


class Mpz(metaclass=_MpzMeta):

  def __new__(cls, x=0, *a):
    if isinstance(x, SI):
      return x
    return int(x, *a)


class Gmpy:
  """Stands for gmpy2: mpz values become Python or symbolic integers."""
  mpz = Mpz

  def __getattr__(self, name):
    import gmpy2
    return getattr(gmpy2, name)

  @staticmethod
  def powmod(a, e, m):
    return pow(a, e, m)

  @staticmethod
  def invert(a, m):
    try:
      return pow(a, -1, m)
    except ValueError:
      raise ZeroDivisionError('invert() no inverse exists')

  @staticmethod
  def f_mod(a, m):
    return a % m

  @staticmethod
  def f_div(a, m):
    return a // m


def module_patches(*mods):
  """Replace np / jnp / int / gmpy2 in the given modules while tracing."""
  out = []
  for m in mods:
    d = m.__dict__
    for k, v in list(d.items()):
      if isinstance(v, pytypes.ModuleType):
        if v.__name__ == 'numpy':
          out.append((m, k, NP(np)))
        elif v.__name__ == 'jax.numpy':
          out.append((m, k, NP(v)))
        elif v.__name__ == 'gmpy2':
          out.append((m, k, Gmpy()))
    out.append((m, 'int', PyInt))
  return out


@contextlib.contextmanager
def fresh_state(mods):
  """Module-level containers start empty-handed of symbolic leftovers."""
  saved = []
  for m in mods:
    for k, v in list(m.__dict__.items()):
      if type(v) in (dict, list, set) and not k.startswith('__'):
        saved.append((v, copy.copy(v)))
  try:
    yield
  finally:
    for v, old in saved:
      if type(v) is list:
        v[:] = old
      else:
        v.clear()
        v.update(old)


# ------------------------------------------------------------------ harness
class PArr(Arr):
  """Exact unbounded integers."""

  def __init__(self, o):
    if not (isinstance(o, np.ndarray) and o.dtype == object):
      o = J.as_obj(o)
    self.r = o
    self.dtype = np.dtype(object)
    self._x = o


def pvar(name, shape, lo, hi, samp=None):
  n = int(np.prod(shape, dtype=np.int64)) if shape != () else 1
  flat = []
  for i in range(n):
    l = lo[i] if isinstance(lo, (list, tuple, np.ndarray)) else lo
    h = hi[i] if isinstance(hi, (list, tuple, np.ndarray)) else hi
    flat.append(T.var(f'{name}{i}', int(l), int(h), samp))
  return PArr(obj(shape, flat))


def flatten(x, out):
  if x is None or isinstance(x, str):
    return
  if isinstance(x, (list, tuple)):
    for v in x:
      flatten(v, out)
  elif isinstance(x, dict):
    for k in x:
      flatten(x[k], out)
  elif isinstance(x, SArr):
    out.append(PArr(_map(lambda v: T.clampb(tm(v)) if isinstance(v, bool)
                         else tm(v), x.a)))
  elif isinstance(x, (SI, bool, int, np.integer, np.bool_)):
    out.append(PArr(_one(tm(x))))
  elif hasattr(x, '__array__'):
    a = np.asarray(x)
    out.append(PArr(_map(tm, a.astype(object))))
  elif type(x).__name__ in ('mpz', 'GMPBigInteger'):
    out.append(PArr(_one(int(x))))
  else:
    raise Unsupported(f'output of type {type(x).__name__}')


def arr(a, dt):
  """Input argument as an array of dtype dt, symbolic or real."""
  if EX is not None:
    a, _ = _conv(a)
    return SArr(a.copy(), dt)
  return np.array(np.asarray(a, dtype=object).tolist(), dtype=dt)


def jarr(a, dt):
  if EX is not None:
    return arr(a, dt)
  import jax.numpy as jnp
  return jnp.array(arr(a, dt))


def lst(a):
  """Nested Python lists of (symbolic) ints."""
  return a.tolist()


class PyCtx:
  """mode='py' driver. mods: modules whose np/int are replaced."""

  def __init__(self, mods=(), patches=()):
    self.mods, self.patches = mods, list(patches)

  def args(self, ins, sym):
    out = []
    for a in ins:
      o = _map(si, a.r)
      out.append(o[()] if o.shape == () else o)
    return out

  def trace(self, ob, ins):
    global EX
    results, prefixes, cache = [], [[]], {}
    mods = self.mods() if callable(self.mods) else self.mods
    pts = module_patches(*mods) + self.patches + list(ob.patches)
    while prefixes:
      prefix = prefixes.pop()
      EX = Explorer(prefix, cache)
      exc, flat, dead = None, Flat(), False
      try:
        with patched(pts), fresh_state(mods):
          try:
            flatten(ob.fn(*self.args(ins, True)), flat)
          except OUTCOMES + (TypeError,) + tuple(ob.raises) as e:
            if isinstance(e, NOT_OUTCOMES):
              raise
            if isinstance(e, TypeError) and TypeError not in ob.raises:
              raise
            exc, flat = e, Flat()
          except Infeasible:
            dead = True
        flat.zeros = list(EX.zeros)
        if not dead:
          results.append((list(EX.pc), flat, exc, None, dict(EX.prims),
                          list(EX.side)))
        for k in EX.forks:
          prefixes.append(EX.dec[:k] + [not EX.dec[k]])
      finally:
        EX = None
      if len(results) > ob.max_paths:
        raise Unsupported('too many paths')
    return results

  def run_concrete(self, ob, cins):
    flat = []
    try:
      flatten(ob.fn(*self.args(cins, False)), flat)
    except OUTCOMES + tuple(ob.raises) as e:
      return [], e
    return flat, None
