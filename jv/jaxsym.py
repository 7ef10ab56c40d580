"""Symbolic interpreter for jaxprs traced from the real code."""

import functools
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from jv import terms as T
from jv.terms import Sym, Unsupported

try:
  from jax.extend import core as jcore
except Exception:  # pragma: no cover
  import jax.core as jcore
Literal = jcore.Literal


# ------------------------------------------------------------------ dtypes
def dt_info(dt):
  dt = np.dtype(dt)
  if dt.kind == 'b':
    return 1, False
  if dt.kind == 'u':
    return dt.itemsize * 8, False
  if dt.kind == 'i':
    return dt.itemsize * 8, True
  raise Unsupported(f'dtype {dt}')


def dt_range(dt):
  dt = np.dtype(dt)
  if dt.kind == 'b':
    return 0, 1
  if dt.kind == 'f':
    m = 2 ** {2: 11, 4: 24, 8: 53}[dt.itemsize]
    return -m, m
  if dt.name == 'bfloat16':
    return -256, 256
  w, s = dt_info(dt)
  return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)


def is_float(dt):
  dt = np.dtype(dt)
  return dt.kind == 'f' or dt.name == 'bfloat16'


def wrap_int(v, dt):
  dt = np.dtype(dt)
  if dt.kind == 'b':
    return int(bool(v))
  if is_float(dt):
    lo, hi = dt_range(dt)
    if not lo <= v <= hi:
      raise Unsupported('float value beyond exact-integer range')
    return int(v)
  w, s = dt_info(dt)
  v &= (1 << w) - 1
  if s and v >> (w - 1):
    v -= 1 << w
  return v


def wrap(x, dt):
  """Machine value of exact integer term x in dtype dt."""
  if not isinstance(x, Sym):
    return wrap_int(x, dt)
  if x.m is not None:
    w, _ = dt_info(dt)
    if w > x.m:
      raise Unsupported('widening an inexact term')
    return lazy(x.p, w)
  lo, hi = dt_range(dt)
  if lo <= x.lo and x.hi <= hi:
    return x
  y = T.tighten(x)
  if not isinstance(y, Sym) or (lo <= y.lo and y.hi <= hi):
    return y
  if is_float(dt):
    raise Unsupported('float value beyond exact-integer range')
  w, _ = dt_info(dt)
  if NOWRAP is not None and x.lo >= lo - (hi - lo) // 4 and (
      x.hi <= hi + (hi - lo) // 4):
    # small excess: the solver may know that it cannot happen
    if (x.lo >= lo or NOWRAP(T.b_not(T.ge(x, lo)))) and (
        x.hi <= hi or NOWRAP(T.ge(x, hi + 1))):
      return T.mk(x.p, max(lo, x.lo), min(hi, x.hi))
  return lazy(x.p, w)


NOWRAP = None  # solver query: is this 0/1 term always 0?


def lazy(p, w):
  p = T.p_mod(p, 1 << w)
  if not p:
    return 0
  if len(p) == 1 and T.ONE in p:
    return Sym(p, None, None, w)  # sign decided by dtype at exact()
  return Sym(p, None, None, w)


def ex(x, dt):
  """Exact value of a machine term of dtype dt."""
  if not isinstance(x, Sym):
    return int(x)
  if x.m is None:
    return x
  lo, hi = dt_range(dt)
  c = None
  if len(x.p) == 1 and T.ONE in x.p:
    return wrap_int(x.p[T.ONE], dt)
  n = 1 << x.m
  l, h = T.p_range(x.p)
  # choose the representative shifted into place
  k = T.floordiv(T.mk(T.p_add(x.p, T.p_const(-lo))), n)
  r = T.sub(T.mk(x.p), T.mul(k, n))
  if isinstance(r, Sym):
    return T.mk(r.p, max(r.lo, lo), min(r.hi, hi))
  return r


def a_poly(x):
  return x.p if isinstance(x, Sym) else ({T.ONE: int(x)} if int(x) else {})


def m_addsub(a, b, dt, k):
  if not isinstance(a, Sym) and not isinstance(b, Sym):
    return wrap_int(int(a) + k * int(b), dt)
  if (isinstance(a, Sym) and a.m is not None) or (
      isinstance(b, Sym) and b.m is not None
  ):
    w, _ = dt_info(dt)
    return norm_c(lazy(T.p_add(a_poly(a), a_poly(b), k), w), dt)
  return wrap(T.add(a, b) if k == 1 else T.sub(a, b), dt)


def norm_c(x, dt):
  if isinstance(x, Sym) and len(x.p) == 1 and T.ONE in x.p:
    return wrap_int(x.p[T.ONE], dt)
  return x


def m_mul(a, b, dt):
  if not isinstance(a, Sym) and not isinstance(b, Sym):
    return wrap_int(int(a) * int(b), dt)
  if (isinstance(a, Sym) and a.m is not None) or (
      isinstance(b, Sym) and b.m is not None
  ):
    w, _ = dt_info(dt)
    return norm_c(lazy(T.p_mul(a_poly(a), a_poly(b)), w), dt)
  return wrap(T.mul(a, b), dt)


def m_sum(xs, dt):
  lz = any(isinstance(x, Sym) and x.m is not None for x in xs)
  if not lz:
    return wrap(T.total(xs), dt)
  w, _ = dt_info(dt)
  r = {}
  for x in xs:
    for m, c in a_poly(x).items():
      r[m] = r.get(m, 0) + c
  return norm_c(lazy(r, w), dt)


def m_dot(xs, ys, dt):
  lz = any(isinstance(x, Sym) and x.m is not None
           for x in itertools.chain(xs, ys))
  if not lz:
    return wrap(T.dot(xs, ys), dt)
  w, _ = dt_info(dt)
  r = {}
  for x, y in zip(xs, ys):
    T.p_mul_into(r, a_poly(x), a_poly(y))
  return norm_c(lazy(r, w), dt)


def m_shl(a, k, dt):
  w, _ = dt_info(dt)
  if isinstance(k, Sym):
    # one-hot over possible amounts
    r = 0
    for v in range(k.lo, k.hi + 1):
      r = m_select(T.eq(k, v), m_shl(a, v, dt), r, dt)
    return r
  k = int(k)
  if k < 0 or k >= w:
    return 0
  return m_mul(a, 1 << k, dt)


def m_shr(a, k, dt, arith):
  w, s = dt_info(dt)
  if isinstance(k, Sym):
    r = 0
    for v in range(k.lo, k.hi + 1):
      r = m_select(T.eq(k, v), m_shr(a, v, dt, arith), r, dt)
    return r
  k = int(k)
  if not arith and s:
    x = ex(a, dt)
    if T.lo_(x) < 0:
      u = np.dtype(f'u{np.dtype(dt).itemsize*8//8}')
      u = np.dtype({8: 'uint8', 16: 'uint16', 32: 'uint32', 64: 'uint64'}[w])
      xu = ex(wrap(x, u), u)
      if k < 0 or k >= w:
        return 0
      return wrap(T.floordiv(xu, 1 << k), dt)
  if k < 0 or k >= w:
    if not arith:
      return 0
    k = w - 1
  return wrap(T.floordiv(ex(a, dt), 1 << k), dt)


def bits_of(x, w):
  """w bit terms of the two's complement pattern of exact term x."""
  return [T.clampb(T.mod(T.floordiv(x, 1 << i), 2)) for i in range(w)]


def m_and_const(x, c, dt):
  w, s = dt_info(dt)
  c &= (1 << w) - 1
  if c == 0:
    return 0
  if c == (1 << w) - 1:
    return x
  if isinstance(x, Sym) and x.m is not None and c & (c + 1) == 0:
    # low mask: only the residue mod 2^k matters
    k = c.bit_length()
    p = T.p_mod(x.p, 1 << k)
    t = T.mk(p)
    return wrap(T.mod(t, 1 << k), dt)
  xe = ex(x, dt)
  # runs of ones
  out = []
  i = 0
  hi = T.hi_(xe)
  while c >> i:
    if not (c >> i) & 1:
      i += 1
      continue
    j = i
    while (c >> j) & 1:
      j += 1
    part = T.floordiv(xe, 1 << i)
    if j < w or T.lo_(xe) < 0:
      part = T.mod(part, 1 << (j - i))
    elif not (T.lo_(xe) >= 0 and hi < (1 << j)):
      part = T.mod(part, 1 << (j - i))
    out.append(T.mul(part, 1 << i))
    i = j
  return wrap(T.total(out), dt)


def m_bitop(op, a, b, dt):
  dt = np.dtype(dt)
  if not isinstance(a, Sym) and not isinstance(b, Sym):
    a, b = int(a), int(b)
    r = a & b if op == 'and' else a | b if op == 'or' else a ^ b
    return wrap_int(r, dt)
  if dt.kind == 'b':
    if op == 'and':
      return T.b_and(a, b)
    if op == 'or':
      return T.b_or(a, b)
    return T.clampb(T.sub(T.add(a, b), T.mul(2, T.mul(a, b))))
  if not isinstance(a, Sym):
    a, b = b, a
  w, s = dt_info(dt)
  if not isinstance(b, Sym):
    c = int(b) & ((1 << w) - 1)
    if op == 'and':
      return m_and_const(a, c, dt)
    if op == 'or':
      # a | c = a + c - (a & c)
      return m_addsub(m_addsub(a, wrap_int(c, dt), dt, 1),
                      m_and_const(a, c, dt), dt, -1)
    # a ^ c = a + c - 2*(a & c)
    t = m_and_const(a, c, dt)
    return m_addsub(m_addsub(a, wrap_int(c, dt), dt, 1),
                    m_mul(t, 2, dt), dt, -1)
  xa, xb = ex(a, dt), ex(b, dt)
  if isinstance(xa, Sym) and isinstance(xb, Sym) and xa.p == xb.p:
    return a if op in ('and', 'or') else 0
  # one operand is 0/1-valued
  for u, v in ((xa, xb), (xb, xa)):
    if T.lo_(u) >= 0 and T.hi_(u) <= 1:
      bit = T.clampb(T.mod(v, 2))
      an = T.b_and(u, bit)
      if op == 'and':
        return an
      if op == 'or':
        return wrap(T.sub(T.add(u, v), an), dt)
      return wrap(T.sub(T.add(u, v), T.mul(2, an)), dt)
  # disjoint bit ranges (alignment)
  def low_zero(x):
    g = 0
    for c in T.poly(x).values():
      g |= c
    return (g & -g).bit_length() - 1 if g else w
  if T.lo_(xa) >= 0 and T.lo_(xb) >= 0:
    for u, v in ((xa, xb), (xb, xa)):
      if T.hi_(u) < (1 << low_zero(v)):
        return 0 if op == 'and' else wrap(T.add(u, v), dt)
  n = w
  if T.lo_(xa) >= 0 and T.lo_(xb) >= 0:
    n = max(T.hi_(xa), T.hi_(xb)).bit_length()
  ba, bb = bits_of(xa, n), bits_of(xb, n)
  an = T.total([T.mul(T.b_and(x, y), 1 << i)
                for i, (x, y) in enumerate(zip(ba, bb))])
  if n == w and s:
    an = ex(wrap(an, dt), dt)
  if op == 'and':
    return wrap(an, dt)
  if op == 'or':
    return wrap(T.sub(T.add(xa, xb), an), dt)
  return wrap(T.sub(T.add(xa, xb), T.mul(2, an)), dt)


def m_select(c, a, b, dt):
  if not isinstance(c, Sym):
    return a if int(c) else b
  if not isinstance(a, Sym) and not isinstance(b, Sym) and int(a) == int(b):
    return a
  if isinstance(a, Sym) and isinstance(b, Sym) and a.m == b.m and a.p == b.p:
    return a
  la = isinstance(a, Sym) and a.m is not None
  lb = isinstance(b, Sym) and b.m is not None
  if (la or lb) and np.dtype(dt).kind in 'iu':
    w, _ = dt_info(dt)
    lo, hi = dt_range(dt)
    if la:
      t = T.under(c, a, True, w, lo, hi)
      a, la = (a, True) if t is None else (t, False)
    if lb:
      t = T.under(c, b, False, w, lo, hi)
      b, lb = (b, True) if t is None else (t, False)
  if la or lb:
    w, _ = dt_info(dt)
    pa, pb = a_poly(a), a_poly(b)
    return norm_c(
        lazy(T.p_add(pb, T.p_mul(c.p, T.p_add(pa, pb, -1))), w), dt)
  return T.ite(c, a, b)


def m_convert(x, src, dst):
  src, dst = np.dtype(src), np.dtype(dst)
  if not isinstance(x, Sym):
    if dst.kind == 'b':
      return int(bool(x))
    return wrap_int(int(x), dst)
  if dst.kind == 'b':
    return T.b_not(T.eq(ex(x, src), 0))
  if is_float(dst):
    return wrap(ex(x, src), dst)
  if is_float(src):
    return wrap(x, dst)
  if x.m is not None:
    w, _ = dt_info(dst)
    if w <= x.m:
      return lazy(x.p, w)
    return wrap(ex(x, src), dst)
  return wrap(x, dst)


def m_div(a, b, dt):
  a, b = ex(a, dt), ex(b, dt)
  if not isinstance(b, Sym):
    b = int(b)
    if b == 0:
      return wrap_int(-1, dt)
    if T.lo_(a) >= 0 and b > 0:
      return T.floordiv(a, b)
    if not isinstance(a, Sym):
      q = abs(int(a)) // abs(b)
      return wrap_int(q if (int(a) < 0) == (b < 0) else -q, dt)
    # truncation toward zero
    pos = T.floordiv(a, abs(b))
    neg = T.sub(0, T.floordiv(T.sub(0, a), abs(b)))
    r = T.ite(T.ge(a, 0), pos, neg)
    if b < 0:
      r = T.sub(0, r)
    return wrap(r, dt)
  if T.lo_(a) >= 0 and T.lo_(b) > 0:
    return T.divmod_sym(a, b)[0]
  raise Unsupported('symbolic signed division')


def m_rem(a, b, dt):
  a, b = ex(a, dt), ex(b, dt)
  if not isinstance(b, Sym) and int(b) == 0:
    return a
  if T.lo_(a) >= 0 and T.lo_(b) > 0:
    if isinstance(b, Sym):
      return T.divmod_sym(a, b)[1]
    return T.mod(a, b)
  if T.hi_(a) <= 0 and not isinstance(b, Sym) and int(b) > 0:
    return T.sub(0, T.mod(T.sub(0, a), b))
  q = m_div(a, b, dt)
  return wrap(T.sub(a, T.mul(ex(q, dt), b)), dt)


# ---------------------------------------------------------------- array utils
def is_conc(x):
  return not (isinstance(x, np.ndarray) and x.dtype == object)


def as_obj(x):
  """Object array of Python ints / Syms."""
  if isinstance(x, np.ndarray) and x.dtype == object:
    return x
  x = np.asarray(x)
  if x.dtype.kind == 'b':
    x = x.astype(np.int64)
  if is_float(x.dtype):
    xi = x.astype(np.float64)
    if not np.all(xi == np.floor(xi)):
      raise Unsupported('non-integer float')
    o = np.empty(x.shape, dtype=object)
    o.ravel()[:] = [int(v) for v in xi.ravel()]
    return _obj(x.shape, [int(v) for v in xi.ravel()])
  return _obj(x.shape, [int(v) for v in x.ravel()])


def _obj(shape, flat):
  o = np.empty(int(np.prod(shape, dtype=np.int64)), dtype=object)
  for i, v in enumerate(flat):
    o[i] = v
  return o.reshape(shape)


def pack(o, dt):
  """Object array -> concrete numpy array if no symbol is left."""
  for v in o.ravel():
    if isinstance(v, Sym):
      return o
  dt = np.dtype(dt)
  return np.array([int(v) for v in o.ravel()]).reshape(o.shape).astype(
      dt) if o.size and not (dt == np.uint64) else np.array(
          [np.uint64(int(v) & (2**64 - 1)) for v in o.ravel()] if dt == np.uint64 else [],
          dtype=dt).reshape(o.shape)


def map1(f, a):
  a = as_obj(a)
  return _obj(a.shape, [f(v) for v in a.ravel()])


def map2(f, a, b):
  a, b = as_obj(a), as_obj(b)
  if a.shape != b.shape:
    a, b = np.broadcast_arrays(a, b)
  return _obj(a.shape, [f(x, y) for x, y in zip(a.ravel(), b.ravel())])


# --------------------------------------------------------------- interpreter
class Interp:

  def __init__(self, opaque=None, while_bound=64, prune=None, contracts=(),
               havoc=False, decide=None):
    self.opaque = opaque or {}
    self.contracts = list(contracts)
    self.used = set()
    self.havoc = havoc
    self.decide = decide
    self.decided = {}
    self.while_bound = while_bound
    self.prune = prune
    self.prims = {}
    self.side = []

  def run(self, closed, args):
    return self.eval(closed.jaxpr, closed.consts, args)

  def eval(self, jaxpr, consts, args):
    env = {}

    def rd(v):
      if isinstance(v, Literal):
        return np.asarray(v.val, dtype=v.aval.dtype)
      return env[v]

    for v, c in zip(jaxpr.constvars, consts):
      env[v] = np.asarray(c) if is_conc(c) else c
    for v, a in zip(jaxpr.invars, args):
      env[v] = a
    for eqn in jaxpr.eqns:
      ins = [rd(v) for v in eqn.invars]
      outs = self.eqn(eqn, ins)
      for v, o in zip(eqn.outvars, outs):
        if hasattr(v.aval, 'shape') and is_conc(o) is False:
          if o.shape != tuple(v.aval.shape):
            raise Unsupported(
                f'{eqn.primitive.name}: shape {o.shape} vs {v.aval.shape}')
          o = pack(o, v.aval.dtype)
        env[v] = o
    return [rd(v) for v in jaxpr.outvars]

  def eqn(self, eqn, ins):
    prim, params = eqn.primitive, eqn.params
    nm = prim.name
    self.prims[nm] = self.prims.get(nm, 0) + 1
    if nm in self.opaque:
      return self.opaque[nm](self, ins, params, eqn)
    if nm in CALLS:
      return CALLS[nm](self, ins, params, eqn)
    if all(is_conc(x) for x in ins):
      sub, bp = prim.get_bind_params(params)
      r = prim.bind(*sub, *[self.tojax(x, v.aval) for x, v in
                            zip(ins, eqn.invars)], **bp)
      rs = r if prim.multiple_results else [r]
      return [self.fromjax(x) for x in rs]
    f = RULES.get(nm)
    if f is None:
      raise Unsupported(f'primitive {nm}')
    r = f(self, ins, params, eqn)
    return r if isinstance(r, list) else [r]

  def tojax(self, x, aval):
    if isinstance(x, np.ndarray) or np.isscalar(x):
      return jnp.asarray(x, dtype=aval.dtype)
    return x

  def fromjax(self, x):
    try:
      return np.asarray(x)
    except Exception:
      return x


RULES = {}
CALLS = {}


def rule(*names):
  def deco(f):
    for n in names:
      RULES[n] = f
    return f
  return deco


def call(*names):
  def deco(f):
    for n in names:
      CALLS[n] = f
    return f
  return deco


def odt(eqn, i=0):
  return np.dtype(eqn.outvars[i].aval.dtype)


def idt(eqn, i=0):
  return np.dtype(eqn.invars[i].aval.dtype)


@rule('add', 'add_any')
def _(I, ins, params, eqn):
  dt = odt(eqn)
  return map2(lambda a, b: m_addsub(a, b, dt, 1), *ins)


@rule('sub')
def _(I, ins, params, eqn):
  dt = odt(eqn)
  return map2(lambda a, b: m_addsub(a, b, dt, -1), *ins)


@rule('neg')
def _(I, ins, params, eqn):
  dt = odt(eqn)
  return map1(lambda a: m_addsub(0, a, dt, -1), ins[0])


@rule('mul')
def _(I, ins, params, eqn):
  dt = odt(eqn)
  if dt.kind == 'b':
    return map2(T.b_and, *ins)
  return map2(lambda a, b: m_mul(a, b, dt), *ins)


@rule('square')
def _(I, ins, params, eqn):
  dt = odt(eqn)
  return map1(lambda a: m_mul(a, a, dt), ins[0])


@rule('integer_pow')
def _(I, ins, params, eqn):
  dt = odt(eqn)
  y = params['y']
  if y < 0:
    raise Unsupported('negative power')

  def f(a):
    r = 1
    for _ in range(y):
      r = m_mul(r, a, dt)
    return r
  return map1(f, ins[0])


@rule('pow')
def _(I, ins, params, eqn):
  dt = odt(eqn)

  def f(a, b):
    if isinstance(b, Sym):
      b = ex(b, idt(eqn, 1))
      if not isinstance(b, Sym):
        return f(a, b)
      r = 0
      for v in range(b.lo, b.hi + 1):
        r = m_select(T.eq(b, v), f(a, v), r, dt)
      return r
    r = 1
    for _ in range(int(b)):
      r = m_mul(r, a, dt)
    return r
  return map2(f, *ins)


@rule('div')
def _(I, ins, params, eqn):
  dt = odt(eqn)
  return map2(lambda a, b: m_div(a, b, dt), *ins)


@rule('rem')
def _(I, ins, params, eqn):
  dt = odt(eqn)
  return map2(lambda a, b: m_rem(a, b, dt), *ins)


@rule('max')
def _(I, ins, params, eqn):
  dt = odt(eqn)

  def f(a, b):
    a, b = ex(a, dt), ex(b, dt)
    r = T.ite(T.ge(a, b), a, b)
    return r
  return map2(f, *ins)


@rule('min')
def _(I, ins, params, eqn):
  dt = odt(eqn)

  def f(a, b):
    a, b = ex(a, dt), ex(b, dt)
    return T.ite(T.ge(a, b), b, a)
  return map2(f, *ins)


@rule('abs')
def _(I, ins, params, eqn):
  dt = odt(eqn)

  def f(a):
    a = ex(a, dt)
    return wrap(T.ite(T.ge(a, 0), a, T.sub(0, a)), dt)
  return map1(f, ins[0])


@rule('sign')
def _(I, ins, params, eqn):
  dt = odt(eqn)

  def f(a):
    a = ex(a, dt)
    return T.ite(T.ge(a, 1), 1, T.ite(T.ge(a, 0), 0, -1))
  return map1(f, ins[0])


@rule('floor', 'round', 'ceil', 'real', 'stop_gradient', 'copy', 'copy_p',
      'optimization_barrier', 'reduce_precision')
def _(I, ins, params, eqn):
  return [as_obj(x) for x in ins]


@rule('and')
def _(I, ins, params, eqn):
  dt = odt(eqn)
  return map2(lambda a, b: m_bitop('and', a, b, dt), *ins)


@rule('or')
def _(I, ins, params, eqn):
  dt = odt(eqn)
  return map2(lambda a, b: m_bitop('or', a, b, dt), *ins)


@rule('xor')
def _(I, ins, params, eqn):
  dt = odt(eqn)
  return map2(lambda a, b: m_bitop('xor', a, b, dt), *ins)


@rule('not')
def _(I, ins, params, eqn):
  dt = odt(eqn)
  if dt.kind == 'b':
    return map1(T.b_not, ins[0])
  return map1(lambda a: m_addsub(wrap_int(-1, dt), a, dt, -1), ins[0])


@rule('shift_left')
def _(I, ins, params, eqn):
  dt = odt(eqn)
  k = map1(lambda v: ex(v, dt), ins[1])
  return map2(lambda a, b: m_shl(a, b, dt), ins[0], k)


@rule('shift_right_logical')
def _(I, ins, params, eqn):
  dt = odt(eqn)
  k = map1(lambda v: ex(v, dt), ins[1])
  return map2(lambda a, b: m_shr(a, b, dt, False), ins[0], k)


@rule('shift_right_arithmetic')
def _(I, ins, params, eqn):
  dt = odt(eqn)
  k = map1(lambda v: ex(v, dt), ins[1])
  return map2(lambda a, b: m_shr(a, b, dt, True), ins[0], k)


def _cmp(f):
  def g(I, ins, params, eqn):
    dt = idt(eqn)
    return map2(lambda a, b: f(ex(a, dt), ex(b, dt)), *ins)
  return g


def m_eq(a, b, dt):
  """Equality; for two mod-2^w terms compare residues."""
  la = isinstance(a, Sym) and a.m is not None
  lb = isinstance(b, Sym) and b.m is not None
  if la or lb:
    w, _ = dt_info(dt)
    d = T.p_mod(T.p_add(a_poly(a), a_poly(b), -1), 1 << w)
    if not d:
      return 1
  return T.eq(ex(a, dt), ex(b, dt))


RULES['eq'] = lambda I, ins, params, eqn: map2(
    lambda a, b: m_eq(a, b, idt(eqn)), *ins)
RULES['ne'] = lambda I, ins, params, eqn: map2(
    lambda a, b: T.b_not(m_eq(a, b, idt(eqn))), *ins)
RULES['ge'] = _cmp(T.ge)
RULES['le'] = _cmp(lambda a, b: T.ge(b, a))
RULES['gt'] = _cmp(lambda a, b: T.b_not(T.ge(b, a)))
RULES['lt'] = _cmp(lambda a, b: T.b_not(T.ge(a, b)))


@rule('select_n')
def _(I, ins, params, eqn):
  dt = odt(eqn)
  c, cases = ins[0], ins[1:]
  cd = idt(eqn)
  c = as_obj(c)
  cases = [as_obj(x) for x in cases]
  if c.shape == () and cases[0].shape != ():
    c = _obj(cases[0].shape, [c.item()] * cases[0].size)
  out = []
  for idx in range(cases[0].size):
    ci = ex(c.ravel()[idx], cd) if cd.kind != 'b' else c.ravel()[idx]
    vs = [x.ravel()[idx] for x in cases]
    if isinstance(ci, Sym) and I.decide is not None and len(vs) == 2:
      key = frozenset(ci.p.items())
      if key not in I.decided:
        I.decided[key] = I.decide(ci)
      if I.decided[key] is not None:
        ci = I.decided[key]
    if not isinstance(ci, Sym):
      out.append(vs[int(ci)])
    elif len(vs) == 2:
      out.append(m_select(ci, vs[1], vs[0], dt))
    else:
      r = vs[-1]
      for k in range(len(vs) - 1):
        r = m_select(T.eq(ci, k), vs[k], r, dt)
      out.append(r)
  return _obj(cases[0].shape, out)


@rule('clamp')
def _(I, ins, params, eqn):
  dt = odt(eqn)
  lo, x, hi = [as_obj(v) for v in ins]

  def f(x, l, h):
    x, l, h = ex(x, dt), ex(l, dt), ex(h, dt)
    y = T.ite(T.ge(x, l), x, l)
    return T.ite(T.ge(h, y), y, h)
  l = np.broadcast_to(lo, x.shape)
  h = np.broadcast_to(hi, x.shape)
  return _obj(x.shape, [f(a, b, c) for a, b, c in
                        zip(x.ravel(), l.ravel(), h.ravel())])


@rule('convert_element_type')
def _(I, ins, params, eqn):
  s, d = idt(eqn), odt(eqn)
  return map1(lambda a: m_convert(a, s, d), ins[0])


@rule('bitcast_convert_type')
def _(I, ins, params, eqn):
  s, d = idt(eqn), odt(eqn)
  x = as_obj(ins[0])
  ws, wd = s.itemsize * 8, d.itemsize * 8
  if is_float(s) or is_float(d):
    raise Unsupported('float bitcast')
  us = np.dtype(f'uint{ws}')
  ud = np.dtype(f'uint{wd}')
  if ws == wd:
    return map1(lambda a: m_convert(a, s, d), x)
  if ws > wd:
    n = ws // wd
    out = []
    for v in x.ravel():
      u = ex(m_convert(v, s, us), us)
      f = u
      for i in range(n):
        g = T.floordiv(u, 1 << (wd * (i + 1)))
        t = T.sub(f, T.mul(g, 1 << wd))
        if isinstance(t, Sym):
          t = T.mk(t.p, max(t.lo, 0), min(t.hi, (1 << wd) - 1))
        f = g
        out.append(wrap(t, d))
    return _obj(x.shape + (n,), out)
  n = wd // ws
  flat = x.reshape(-1, n)
  out = []
  for row in flat:
    t = T.total([T.mul(ex(m_convert(v, s, us), us), 1 << (ws * i))
                 for i, v in enumerate(row)])
    out.append(wrap(t, d))
  return _obj(x.shape[:-1], out)


# ------------------------------------------------------------- structural ops
def _bind_ids(I, eqn, ins, id_positions):
  """Run the real primitive on integer labels, return label array and pool."""
  pool = []
  args = []
  for k, x in enumerate(ins):
    aval = eqn.invars[k].aval
    if k in id_positions:
      o = as_obj(x)
      base = len(pool)
      pool.extend(o.ravel())
      args.append(jnp.asarray(
          np.arange(base, base + o.size, dtype=np.int32).reshape(o.shape)))
    else:
      args.append(I.tojax(x, aval))
  sub, bp = eqn.primitive.get_bind_params(eqn.params)
  for k in list(bp):
    if k in ('new_dtype', 'preferred_element_type'):
      bp[k] = np.dtype('int32')
  r = eqn.primitive.bind(*args, **bp)
  rs = r if eqn.primitive.multiple_results else [r]
  return [np.asarray(a) for a in rs], pool


def _fill_value(params, dt):
  fv = params.get('fill_value')
  if fv is not None:
    return int(fv)
  dt = np.dtype(dt)
  lo, hi = dt_range(dt)
  return lo if dt.kind == 'i' else hi


def _from_labels(lab, pool, fill):
  out = []
  for v in lab.ravel():
    v = int(v)
    out.append(pool[v] if 0 <= v < len(pool) else fill)
  return _obj(lab.shape, out)


def structural(positions=None):
  def f(I, ins, params, eqn):
    pos = range(len(ins)) if positions is None else positions
    for k in range(len(ins)):
      if k not in pos and not is_conc(ins[k]):
        raise Unsupported(f'{eqn.primitive.name}: symbolic index')
    labs, pool = _bind_ids(I, eqn, ins, set(pos))
    fill = _fill_value(params, odt(eqn))
    return [_from_labels(l, pool, fill) for l in labs]
  return f


for _n in ('reshape', 'transpose', 'broadcast_in_dim', 'squeeze',
           'expand_dims', 'slice', 'rev', 'concatenate', 'pad', 'split',
           'tile'):
  RULES[_n] = structural()


def _enum_values(I, terms, dts):
  """Possible concrete tuples of the symbolic index terms (with conditions)."""
  rngs = []
  tot = 1
  for t, dt in zip(terms, dts):
    t = ex(t, dt)
    if isinstance(t, Sym):
      rngs.append([(v, T.eq(t, v)) for v in range(t.lo, t.hi + 1)])
    else:
      rngs.append([(int(t), 1)])
    tot *= len(rngs[-1])
    if tot > 5000:
      raise Unsupported('too many symbolic index values')
  return rngs


def _onehot(cases, shape, dt):
  """cases: list of (cond, object array). Exactly one cond holds."""
  n = int(np.prod(shape, dtype=np.int64))
  out = []
  cases = [(c, as_obj(a).reshape(-1)) for c, a in cases]
  for i in range(n):
    vals = [(c, a[i]) for c, a in cases]
    out.append(onehot_val(vals, dt))
  return _obj(shape, out)


def onehot_val(vals, dt):
  """Sum of cond*value, grouping equal values."""
  groups = {}
  for c, v in vals:
    k = (('s', T.p_key(v.p), v.m) if isinstance(v, Sym) else ('c', int(v)))
    if k in groups:
      groups[k] = (groups[k][0] + [c], v)
    else:
      groups[k] = ([c], v)
  if len(groups) == 1:
    return next(iter(groups.values()))[1]
  # last group is the default: conditions are exhaustive and exclusive
  items = sorted(groups.values(), key=lambda g: len(g[0]))
  base = items[-1][1]
  anylazy = any(isinstance(v, Sym) and v.m is not None for _, v in items)
  bp = a_poly(base)
  r = dict(bp)
  lo, hi = None, None
  for cs, v in items[:-1]:
    d = T.p_add(a_poly(v), bp, -1)
    cp = {}
    for c in cs:
      cp = T.p_add(cp, a_poly(c))
    r = T.p_add(r, T.p_mul(cp, d))
  if anylazy:
    w, _ = dt_info(dt)
    return norm_c(lazy(r, w), dt)
  lo = min(T.lo_(v) for _, v in items)
  hi = max(T.hi_(v) for _, v in items)
  return T.mk(r, lo, hi)


def _conds(combo):
  c = 1
  for _, e in combo:
    c = T.b_and(c, e)
  return c


@rule('gather')
def _(I, ins, params, eqn):
  if is_conc(ins[1]):
    return structural({0})(I, ins, params, eqn)
  dn = params['dimension_numbers']
  idx = as_obj(ins[1])
  dt = idt(eqn, 1)
  out_shape = tuple(eqn.outvars[0].aval.shape)
  batch_dims = [d for d in range(len(out_shape)) if d not in dn.offset_dims]
  rows = idx.reshape(-1, idx.shape[-1])
  bshape = idx.shape[:-1]
  res = np.empty(out_shape, dtype=object)
  base_idx = np.zeros(rows.shape, dtype=np.int64)
  for r in range(rows.shape[0]):
    for c in range(rows.shape[1]):
      t = ex(rows[r, c], dt)
      base_idx[r, c] = T.lo_(t)
  for r in range(rows.shape[0]):
    rngs = _enum_values(I, rows[r], [dt] * rows.shape[1])
    cases = []
    pos = np.unravel_index(r, bshape) if bshape else ()
    sl = [slice(None)] * len(out_shape)
    for d, p in zip(batch_dims, pos):
      sl[d] = p
    sl = tuple(sl)
    for combo in itertools.product(*rngs):
      b = base_idx.copy()
      b[r] = [v for v, _ in combo]
      cidx = b.reshape(idx.shape).astype(dt)
      o = structural({0})(I, [ins[0], cidx], params, eqn)[0]
      cases.append((_conds(combo), o[sl]))
    shp = cases[0][1].shape if isinstance(cases[0][1], np.ndarray) else ()
    val = _onehot(cases, shp, odt(eqn))
    res[sl] = val if shp else val.item()
  return res


@rule('dynamic_slice')
def _(I, ins, params, eqn):
  if all(is_conc(x) for x in ins[1:]):
    return structural({0})(I, ins, params, eqn)
  terms = [as_obj(x).item() for x in ins[1:]]
  dts = [idt(eqn, k) for k in range(1, len(ins))]
  shape = np.shape(ins[0])
  ss = params['slice_sizes']
  rngs = []
  for t, dt, n, s in zip(terms, dts, shape, ss):
    t = ex(t, dt)
    if isinstance(t, Sym):
      # clamp semantics
      t = T.ite(T.ge(t, 0), t, 0)
      t = T.ite(T.ge(n - s, t), t, n - s)
    if isinstance(t, Sym):
      rngs.append([(v, T.eq(t, v)) for v in range(t.lo, t.hi + 1)])
    else:
      rngs.append([(int(t), 1)])
  cases = []
  for combo in itertools.product(*rngs):
    cidx = [np.asarray(v, dtype=dt) for (v, _), dt in zip(combo, dts)]
    o = structural({0})(I, [ins[0]] + cidx, params, eqn)[0]
    cases.append((_conds(combo), o))
  return _onehot(cases, tuple(eqn.outvars[0].aval.shape), odt(eqn))


@rule('dynamic_update_slice')
def _(I, ins, params, eqn):
  if all(is_conc(x) for x in ins[2:]):
    return structural({0, 1})(I, ins, params, eqn)
  terms = [as_obj(x).item() for x in ins[2:]]
  dts = [idt(eqn, k) for k in range(2, len(ins))]
  shape = np.shape(ins[0])
  ss = np.shape(ins[1])
  rngs = []
  for t, dt, n, s in zip(terms, dts, shape, ss):
    t = ex(t, dt)
    if isinstance(t, Sym):
      t = T.ite(T.ge(t, 0), t, 0)
      t = T.ite(T.ge(n - s, t), t, n - s)
    if isinstance(t, Sym):
      rngs.append([(v, T.eq(t, v)) for v in range(t.lo, t.hi + 1)])
    else:
      rngs.append([(int(t), 1)])
  cases = []
  for combo in itertools.product(*rngs):
    cidx = [np.asarray(v, dtype=dt) for (v, _), dt in zip(combo, dts)]
    o = structural({0, 1})(I, list(ins[:2]) + cidx, params, eqn)[0]
    cases.append((_conds(combo), o))
  return _onehot(cases, tuple(eqn.outvars[0].aval.shape), odt(eqn))


@rule('scatter')
def _(I, ins, params, eqn):
  if is_conc(ins[1]):
    return structural({0, 2})(I, ins, params, eqn)
  idx = as_obj(ins[1])
  dt = idt(eqn, 1)
  rows = idx.reshape(-1, idx.shape[-1])
  # one index row at a time, sequentially (matches order for duplicates)
  if rows.shape[0] == 1:
    rngs = _enum_values(I, rows[0], [dt] * rows.shape[1])
    cases = []
    for combo in itertools.product(*rngs):
      cidx = np.array([v for v, _ in combo]).reshape(idx.shape).astype(dt)
      o = structural({0, 2})(I, [ins[0], cidx, ins[2]], params, eqn)[0]
      cases.append((_conds(combo), o))
    return _onehot(cases, tuple(eqn.outvars[0].aval.shape), odt(eqn))
  # several rows: process sequentially; other rows pointed out of bounds
  dn = params['dimension_numbers']
  mode = str(params.get('mode'))
  if 'CLIP' in mode or 'PROMISE' in mode:
    raise Unsupported(f'scatter mode {mode} with symbolic rows')
  cur = ins[0]
  big = dt_range(dt)[1]
  for r in range(rows.shape[0]):
    rngs = _enum_values(I, rows[r], [dt] * rows.shape[1])
    cases = []
    for combo in itertools.product(*rngs):
      b = np.full(rows.shape, 2**30, dtype=np.int64)
      b[r] = [v for v, _ in combo]
      cidx = b.reshape(idx.shape).astype(dt)
      o = structural({0, 2})(I, [cur, cidx, ins[2]], params, eqn)[0]
      cases.append((_conds(combo), o))
    cur = _onehot(cases, tuple(eqn.outvars[0].aval.shape), odt(eqn))
  return cur


@rule('scatter-add', 'scatter_add')
def _(I, ins, params, eqn):
  if not is_conc(ins[1]):
    idx = as_obj(ins[1])
    dt = idt(eqn, 1)
    rows = idx.reshape(-1, idx.shape[-1])
    if rows.shape[0] != 1:
      raise Unsupported('symbolic scatter-add')
    rngs = _enum_values(I, rows[0], [dt] * rows.shape[1])
    cases = []
    for combo in itertools.product(*rngs):
      cidx = np.array([v for v, _ in combo]).reshape(idx.shape).astype(dt)
      cases.append((_conds(combo),
                    _scatter_add(I, [ins[0], cidx, ins[2]], params, eqn)))
    return _onehot(cases, tuple(eqn.outvars[0].aval.shape), odt(eqn))
  return _scatter_add(I, ins, params, eqn)


def _scatter_add(I, ins, params, eqn):
  dt = odt(eqn)
  op = as_obj(ins[0])
  up = as_obj(ins[2])
  dn = params['dimension_numbers']
  # target of each update element: scatter one-hot updates
  flat = list(op.ravel())
  opf = jnp.zeros(op.shape, jnp.int32)
  for k in range(up.size):
    u = np.zeros(up.size, np.int32)
    u[k] = 1
    t = np.asarray(eqn.primitive.bind(
        opf, jnp.asarray(ins[1]), jnp.asarray(u.reshape(up.shape)), **params))
    nz = np.nonzero(t.ravel())[0]
    for i in nz:
      flat[i] = m_addsub(flat[i], up.ravel()[k], dt, 1)
  return _obj(op.shape, flat)


# ------------------------------------------------------------------ reductions
def _reduce(f):
  def g(I, ins, params, eqn):
    x = as_obj(ins[0])
    axes = tuple(params['axes'])
    keep = [d for d in range(x.ndim) if d not in axes]
    y = np.transpose(x, keep + list(axes)).reshape(
        [x.shape[d] for d in keep] + [-1])
    shp = y.shape[:-1]
    rows = y.reshape(-1, y.shape[-1]) if y.size else y.reshape(
        int(np.prod(shp)), -1)
    dt = odt(eqn)
    return _obj(shp, [f(list(r), dt) for r in rows])
  return g


RULES['reduce_sum'] = _reduce(m_sum)


def _fold(op):
  def f(xs, dt):
    r = ex(xs[0], dt)
    for x in xs[1:]:
      x = ex(x, dt)
      c = T.ge(r, x)
      r = T.ite(c, r, x) if op == 'max' else T.ite(c, x, r)
    return r
  return f


RULES['reduce_max'] = _reduce(_fold('max'))
RULES['reduce_min'] = _reduce(_fold('min'))


def _band(xs, dt):
  if np.dtype(dt).kind == 'b':
    if sum(isinstance(x, Sym) for x in xs) > 4:
      if any(not isinstance(x, Sym) and not x for x in xs):
        return 0
      return T.ge(T.total(xs), len(xs))
    return name_if_big(functools.reduce(T.b_and, xs))
  return functools.reduce(lambda a, b: m_bitop('and', a, b, dt), xs)


def name_if_big(x, n=64):
  if isinstance(x, Sym) and x.m is None and len(x.p) > n:
    return T.name(x)
  return x


def _bor(xs, dt):
  if np.dtype(dt).kind == 'b':
    if sum(isinstance(x, Sym) for x in xs) > 4:
      if any(not isinstance(x, Sym) and x for x in xs):
        return 1
      return T.ge(T.total(xs), 1)
    r = functools.reduce(T.b_and, [T.b_not(x) for x in xs])
    return T.clampb(T.b_not(name_if_big(r)))
  return functools.reduce(lambda a, b: m_bitop('or', a, b, dt), xs)


def _bxor(xs, dt):
  return functools.reduce(lambda a, b: m_bitop('xor', a, b, dt), xs)


RULES['reduce_and'] = _reduce(_band)
RULES['reduce_or'] = _reduce(_bor)
RULES['reduce_xor'] = _reduce(_bxor)


def _prod(xs, dt):
  r = xs[0]
  for x in xs[1:]:
    r = m_mul(r, x, dt)
  return r


RULES['reduce_prod'] = _reduce(_prod)


@rule('cumsum')
def _(I, ins, params, eqn):
  x = as_obj(ins[0])
  ax, rev = params['axis'], params['reverse']
  dt = odt(eqn)
  y = np.moveaxis(x, ax, -1)
  if rev:
    y = y[..., ::-1]
  out = np.empty(y.shape, dtype=object)
  for i in np.ndindex(y.shape[:-1]):
    acc = 0
    for k in range(y.shape[-1]):
      acc = m_addsub(acc, y[i + (k,)], dt, 1)
      out[i + (k,)] = acc
  if rev:
    out = out[..., ::-1]
  return np.moveaxis(out, -1, ax)


@rule('argmax', 'argmin')
def _(I, ins, params, eqn):
  x = as_obj(ins[0])
  (ax,) = params['axes']
  dt = idt(eqn)
  isb = dt.kind == 'b'
  y = np.moveaxis(x, ax, -1)
  out = []
  mx = eqn.primitive.name == 'argmax'
  for i in np.ndindex(y.shape[:-1]):
    row = [v if isb else ex(v, dt) for v in y[i]]
    best, arg = row[0], 0
    for k in range(1, len(row)):
      # strictly better replaces
      c = T.b_not(T.ge(best, row[k])) if mx else T.b_not(T.ge(row[k], best))
      best = T.ite(c, row[k], best)
      arg = T.ite(c, k, arg)
    out.append(arg)
  return _obj(y.shape[:-1], out)


@rule('dot_general')
def _(I, ins, params, eqn):
  (lc, rc), (lb, rb) = params['dimension_numbers']
  l, r = as_obj(ins[0]), as_obj(ins[1])
  dt = odt(eqn)
  # operands are converted to the output type before multiplying
  ld, rd = idt(eqn, 0), idt(eqn, 1)
  if not is_float(dt) and (ld != dt or rd != dt):
    l = map1(lambda a: m_convert(a, ld, dt), l)
    r = map1(lambda a: m_convert(a, rd, dt), r)
  lf = [d for d in range(l.ndim) if d not in lc and d not in lb]
  rf = [d for d in range(r.ndim) if d not in rc and d not in rb]
  L = np.transpose(l, list(lb) + lf + list(lc))
  R = np.transpose(r, list(rb) + rf + list(rc))
  bs = tuple(l.shape[d] for d in lb)
  ls = tuple(l.shape[d] for d in lf)
  rs = tuple(r.shape[d] for d in rf)
  nb = int(np.prod(bs)) if bs else 1
  nc = int(np.prod([l.shape[d] for d in lc])) if lc else 1
  L = L.reshape(nb, int(np.prod(ls)) if ls else 1, nc)
  R = R.reshape(nb, int(np.prod(rs)) if rs else 1, nc)
  out = []
  for b in range(nb):
    lrows = [list(x) for x in L[b]]
    rrows = [list(x) for x in R[b]]
    for x in lrows:
      for y in rrows:
        out.append(m_dot(x, y, dt))
  return _obj(bs + ls + rs, out)


@rule('conv_general_dilated')
def _(I, ins, params, eqn):
  dn = params['dimension_numbers']
  l, r = as_obj(ins[0]), as_obj(ins[1])
  fg, bg = params['feature_group_count'], params['batch_group_count']
  dt = odt(eqn)
  ld, rd = idt(eqn, 0), idt(eqn, 1)
  if not is_float(dt) and (ld != dt or rd != dt):
    l = map1(lambda a: m_convert(a, ld, dt), l)
    r = map1(lambda a: m_convert(a, rd, dt), r)
  ls, rs, os_ = dn.lhs_spec, dn.rhs_spec, dn.out_spec
  L = np.transpose(l, ls)  # N C spatial
  R = np.transpose(r, rs)  # O I spatial
  nsp = L.ndim - 2
  st, pad = params['window_strides'], params['padding']
  ldil, rdil = params['lhs_dilation'], params['rhs_dilation']
  N, C = L.shape[0] // bg, R.shape[1]
  O = R.shape[0]
  oshape_t = tuple(eqn.outvars[0].aval.shape)
  spo = [oshape_t[os_[2 + k]] for k in range(nsp)]
  out = np.empty((N, O) + tuple(spo), dtype=object)
  for n in range(N):
    for o in range(O):
      for pos in np.ndindex(*spo):
        xs, ys = [], []
        for kpos in np.ndindex(*R.shape[2:]):
          src, ok = [], True
          for k in range(nsp):
            c = pos[k] * st[k] + kpos[k] * rdil[k] - pad[k][0]
            if c < 0 or c % ldil[k] or c // ldil[k] >= L.shape[2 + k]:
              ok = False
              break
            src.append(c // ldil[k])
          if not ok:
            continue
          gf, gb = o // (O // fg), o // (O // bg)
          for c in range(C):
            xs.append(L[(gb * N + n, gf * C + c) + tuple(src)])
            ys.append(R[(o, c) + kpos])
        out[(n, o) + pos] = m_dot(xs, ys, dt) if xs else 0
  inv = [0] * (2 + nsp)
  for i, d in enumerate(os_):
    inv[d] = i
  return np.transpose(out, inv)


# ------------------------------------------------------------------ control
@call('shard_map')
def _shard_map(self, ins, p, eqn):
  """One mesh axis: run the body on each shard and join the results."""
  mesh = p['mesh']
  if len(mesh.shape) != 1:
    raise Unsupported('shard_map over several axes')
  (axis, n), = dict(mesh.shape).items()

  def dim(spec):
    for d, s in enumerate(tuple(spec)):
      names = s if isinstance(s, tuple) else (s,)
      if axis in names:
        return d
    return None
  body = p['jaxpr']
  idims = [dim(s) for s in p['in_specs']]
  odims = [dim(s) for s in p['out_specs']]
  outs = []
  for k in range(n):
    args = []
    for a, d in zip(ins, idims):
      if d is not None:
        w = a.shape[d] // n
        a = np.take(a, range(k * w, (k + 1) * w), axis=d)
      args.append(a)
    if hasattr(body, 'consts'):
      outs.append(self.eval(body.jaxpr, body.consts, args))
    else:
      outs.append(self.eval(body, (), args))
  res = []
  for j, d in enumerate(odims):
    if d is None:
      res.append(outs[0][j])
      continue
    parts = [o[j] for o in outs]
    if not all(is_conc(q) for q in parts):
      parts = [as_obj(q) for q in parts]
    res.append(np.concatenate(parts, axis=d))
  return res


@call('pjit', 'jit', 'closed_call', 'core_call', 'remat', 'checkpoint',
      'custom_jvp_call', 'custom_vjp_call', 'custom_vjp_call_jaxpr', 'named_call',
      'xla_call')
def _(I, ins, params, eqn):
  j = params.get('jaxpr') or params.get('call_jaxpr') or params.get(
      'fun_jaxpr')
  nm = params.get('name')
  if nm is not None and ('fn:' + str(nm)) in I.opaque:
    return I.opaque['fn:' + str(nm)](I, ins, params, eqn)
  if I.contracts and not all(is_conc(x) for x in ins):
    t = jaxpr_text(j)
    for ct in I.contracts:
      if ct.text() == t:
        r = ct.stub(I, ins, eqn)
        if r is not None:
          I.used.add(ct.name)
          return r
  if hasattr(j, 'consts'):
    return I.eval(j.jaxpr, j.consts, ins)
  return I.eval(j, [], ins)


_TEXT = {}


def jaxpr_text(j):
  """Text and constants of a (closed) jaxpr: equal texts compute the same."""
  if id(j) not in _TEXT:
    jj = getattr(j, 'jaxpr', j)
    cs = [(np.asarray(c).dtype.str, np.asarray(c).shape,
           np.asarray(c).tobytes()) for c in getattr(j, 'consts', [])]
    _TEXT[id(j)] = (j, (str(jj), str(cs)))
  return _TEXT[id(j)][1]


class Contract:
  """A proven summary of one traced call.

  call(*args) at the given (shape, dtype) arguments must contain exactly one
  outer jitted call; wherever a program contains a call with that very body,
  stub(interp, ins, eqn) gives its result (or None to execute it after all).
  The summary itself is proven by an obligation of the same check.
  """

  def __init__(self, name, call, avals, stub):
    self.name, self.call, self.avals, self.stub = name, call, avals, stub
    self._text = None

  def text(self):
    if self._text is None:
      sds = [jax.ShapeDtypeStruct(s, d) for s, d in self.avals]
      closed = jax.make_jaxpr(self.call)(*sds)
      self._text = ('none',)
      eq = [e for e in closed.jaxpr.eqns if 'jaxpr' in e.params]
      if len(eq) == 1 and len(closed.jaxpr.eqns) == 1:
        self._text = jaxpr_text(eq[0].params['jaxpr'])
    return self._text


@call('scan')
def _(I, ins, params, eqn):
  nc, nk = params['num_consts'], params['num_carry']
  j = params['jaxpr']
  consts, carry, xs = ins[:nc], list(ins[nc:nc + nk]), ins[nc + nk:]
  n = params['length']
  ys = None
  order = range(n - 1, -1, -1) if params['reverse'] else range(n)
  n_y = len(eqn.outvars) - nk
  ys = [[None] * n for _ in range(n_y)]
  for i in order:
    sl = [x[i] if not (isinstance(x, np.ndarray) and x.dtype == object)
          else _at(x, i) for x in xs]
    out = I.eval(j.jaxpr, j.consts, list(consts) + carry + sl)
    carry = list(out[:nk])
    for k, v in enumerate(out[nk:]):
      ys[k][i] = v
  res = list(carry)
  for k in range(n_y):
    aval = eqn.outvars[nk + k].aval
    if n == 0:
      res.append(np.zeros(aval.shape, aval.dtype))
    elif all(is_conc(v) for v in ys[k]):
      res.append(np.stack([np.asarray(v) for v in ys[k]]))
    else:
      res.append(np.stack([as_obj(v) for v in ys[k]]))
  return res


def _at(x, i):
  v = x[i]
  if isinstance(v, np.ndarray):
    return v
  return _obj((), [v])


def _cond_true(c):
  return c.item() if isinstance(c, np.ndarray) else c


def _stutters(I, params, avals, cc, bc):
  """Solver: does the body leave every state alone where the condition fails?

  Decided for arbitrary values of the loop state (and of the symbolic loop
  constants), so it holds at every iteration.  Then running the body past the
  loop's end changes nothing, and the loop equals its body applied any number
  of times after which the condition is false.
  """
  cj, bj = params['cond_jaxpr'], params['body_jaxpr']
  key = id(params['body_jaxpr'])
  memo = I.__dict__.setdefault('stutter', {})
  if key in memo:
    return memo[key][0]
  if not (all(is_conc(x) for x in cc) and all(is_conc(x) for x in bc)):
    return False
  from jv import smt
  saved = T.CTX
  T.reset()
  ok = False
  try:
    st = []
    for k, av in enumerate(avals):
      lo, hi = dt_range(av.dtype)
      n = int(np.prod(av.shape, dtype=np.int64))
      st.append(_obj(av.shape, [T.var(f'w{k}_{i}', lo, hi)
                                for i in range(n)]))
    c = _cond_true(I.eval(cj.jaxpr, cj.consts, list(cc) + st)[0])
    nxt = I.eval(bj.jaxpr, bj.consts, list(bc) + st)
    dis = []
    for a, b, av in zip(nxt, st, avals):
      for x, y in zip(as_obj(a).ravel(), as_obj(b).ravel()):
        if not (isinstance(x, Sym) or isinstance(y, Sym)) and x == y:
          continue
        x, y = ex(x, av.dtype), ex(y, av.dtype)
        dis.append(smt.Not(smt.Eq(x, y)))
    if isinstance(c, Sym) and dis:
      txt, _, _ = smt.build([smt.Not(smt.B(c)), smt.Or(*dis)])
      r, _ = smt.run_solver(txt, [], 30)
      ok = r == 'unsat'
    elif not dis:
      ok = True
  except Unsupported:
    ok = False
  finally:
    T.CTX = saved
  memo[key] = (ok, params['body_jaxpr'])
  return ok


@call('while')
def _(I, ins, params, eqn):
  cn, bn = params['cond_nconsts'], params['body_nconsts']
  cc, bc = ins[:cn], ins[cn:cn + bn]
  st = list(ins[cn + bn:])
  cj, bj = params['cond_jaxpr'], params['body_jaxpr']
  it = 0
  avals = [v.aval for v in eqn.outvars]
  stutter = None
  while True:
    c = I.eval(cj.jaxpr, cj.consts, list(cc) + st)[0]
    c = _cond_true(c)
    if isinstance(c, Sym):
      if stutter is None:
        stutter = _stutters(I, params, avals, cc, bc)
      n = max([a.shape[-1] for a in avals if a.shape] + [1])
      ask = not stutter or (not I.havoc and it in (n, n + 1, 2 * n))
      if ask and I.prune is not None and I.prune(c):
        return st
      it += 1
      if it > I.while_bound:
        if I.havoc:
          # the state at exit, whatever it is, when the loop does end
          out = []
          for k, av in enumerate(avals):
            lo, hi = dt_range(av.dtype)
            m = int(np.prod(av.shape, dtype=np.int64))
            out.append(_obj(av.shape, [
                T.var(f'exit{len(T.CTX.facts)}_{k}_{i}', lo, hi)
                for i in range(m)]))
          c = _cond_true(I.eval(cj.jaxpr, cj.consts, list(cc) + out)[0])
          from jv import smt
          T.CTX.facts.append(smt.Not(smt.B(c)))
          return out
        raise Unsupported('while bound exceeded')
      nxt = I.eval(bj.jaxpr, bj.consts, list(bc) + st)
      if stutter:
        st = nxt
      else:
        st = [merge(c, a, b, av.dtype) for a, b, av in zip(nxt, st, avals)]
      continue
    if not int(c):
      return st
    st = I.eval(bj.jaxpr, bj.consts, list(bc) + st)
    it += 1
    if it > 100000:
      raise Unsupported('while runs too long')


def merge(c, a, b, dt):
  if is_conc(a) and is_conc(b) and np.array_equal(a, b):
    return a
  r = map2(lambda x, y: m_select(c, x, y, dt), a, b)
  return pack(r, dt)


@call('cond')
def _(I, ins, params, eqn):
  br = params['branches']
  idx, ops = ins[0], ins[1:]
  if is_conc(idx):
    i = int(np.clip(int(np.asarray(idx)), 0, len(br) - 1))
    return I.eval(br[i].jaxpr, br[i].consts, ops)
  t = as_obj(idx).item()
  dt = idt(eqn)
  t = ex(t, dt) if np.dtype(dt).kind != 'b' else t
  outs = [I.eval(b.jaxpr, b.consts, ops) for b in br]
  res = []
  for k, v in enumerate(eqn.outvars):
    r = outs[-1][k]
    for i in range(len(br) - 2, -1, -1):
      c = (T.b_not(T.ge(t, 1)) if i == 0 else T.eq(t, i))
      r = merge(c, outs[i][k], r, v.aval.dtype)
    res.append(r)
  return res


@rule('sort')
def _(I, ins, params, eqn):
  raise Unsupported('sort of symbolic data')


@rule('population_count')
def _(I, ins, params, eqn):
  dt = odt(eqn)
  w, _ = dt_info(dt)
  return map1(lambda a: T.total(bits_of(ex(a, dt), w)), ins[0])
