"""Shared set-up for checks."""
import os
import sys


def cggi():
  import jaxite  # noqa
  return jaxite


def ec():
  import jaxite
  root = os.path.dirname(os.path.dirname(os.path.abspath(jaxite.__file__)))
  if root not in list(jaxite.__path__):
    jaxite.__path__.append(root)
  return jaxite


def negacyclic(a, b, n=None):
  """Coefficients of a*b mod X^n+1 (exact integers)."""
  from jv import terms as T
  n = n or len(a)
  out = []
  for k in range(n):
    xs, ys = [], []
    for i in range(n):
      j = (k - i) % n
      xs.append(a[i])
      ys.append(b[j] if i <= k else T.sub(0, b[j]))
    out.append(T.dot(xs, ys))
  return out


def signed_mono(a, d):
  """X^d * a mod X^n+1 for concrete d."""
  from jv import terms as T
  n = len(a)
  d %= 2 * n
  out = [None] * n
  for i in range(n):
    k = i + d
    s = (k // n) % 2
    out[k % n] = T.sub(0, a[i]) if s else a[i]
  return out


def exponent(name, ddt, m, c):
  """0-d array holding m*k + c for every k keeping it inside ddt."""
  import numpy as np
  from jv import jaxsym as J, terms as T
  from jv.harness import Arr, obj
  lo, hi = J.dt_range(ddt)
  k = T.var(name, -((c - lo) // m), (hi - c) // m)
  return Arr(obj((), [T.add(T.mul(k, m), c)]), ddt)


class Prg:
  """Random source that hands out given arrays (or records the requests)."""

  def __init__(self, arrays=None):
    self.given = None if arrays is None else list(arrays)
    self.log = []

  def _get(self, kind, shape, dtype):
    import jax.numpy as jnp
    shape = tuple(int(v) for v in shape)
    self.log.append((kind, shape, str(jnp.dtype(dtype))))
    if self.given is None:
      return jnp.zeros(shape, dtype)
    a = self.given[len(self.log) - 1]
    return jnp.asarray(a).reshape(shape).astype(dtype)

  def uniform(self, shape=(1,), dtype='uint32'):
    return self._get('uniform', shape, dtype)

  def rounded_normal(self, shape=(1,), dtype='uint32'):
    return self._get('normal', shape, dtype)

  def sk_uniform(self, shape=(1,), dtype='uint32'):
    return self._get('sk', shape, dtype)


_REQ = {}


def prg_requests(key, run):
  """Randomness requested by run(prg), learnt from one concrete run."""
  if key not in _REQ:
    p = Prg()
    run(p)
    _REQ[key] = list(p.log)
  return _REQ[key]


def prg_inputs(reqs, noise, dt='uint32', chunk=None):
  """Symbolic arrays for the requests; normal samples in [-noise, noise]."""
  from jv import jaxsym as J, terms as T
  from jv.harness import varr, Arr, obj
  import numpy as np
  out = []
  for i, (kind, shape, d) in enumerate(reqs):
    n = int(np.prod(shape, dtype=np.int64))
    if kind == 'uniform':
      out.append(varr(f'u{i}_', shape, d, chunk=chunk))
    elif kind == 'sk':
      out.append(varr(f's{i}_', shape, d, 0, 1))
    else:
      vs = [J.wrap(T.var(f'e{i}_{j}', -noise, noise), d) for j in range(n)]
      out.append(Arr(obj(shape, vs), d))
  return out


def noises(arrs, reqs):
  """Signed exact values of the normal samples."""
  out = []
  for a, (kind, shape, d) in zip(arrs, reqs):
    if kind == 'normal':
      out.append(a)
  return out


def phase(c, key):
  """b - <a, s> as a polynomial term (caller compares mod 2^w)."""
  from jv import terms as T
  n = len(key)
  return T.sub(c[-1], T.dot(list(c[:n]), list(key)))


def rmul(a, b, dt='uint32'):
  from jv import jaxsym as J
  return J.m_dot([a], [b], dt)


def radd(a, b, dt='uint32'):
  from jv import jaxsym as J
  return J.m_addsub(a, b, dt, 1)


def rsub(a, b, dt='uint32'):
  from jv import jaxsym as J
  return J.m_addsub(a, b, dt, -1)


def raw_dot(xs, ys):
  """Sum of products of raw (possibly mod-2^w) machine terms, mod 2^32."""
  from jv import jaxsym as J
  return J.m_dot(list(xs), list(ys), 'uint32')


def raw_phase(c, key):
  from jv import jaxsym as J
  return J.m_addsub(c[-1], raw_dot(c[:-1], key), 'uint32', -1)


def raw_negacyclic(a, b):
  """Negacyclic product of raw machine terms mod 2^32."""
  from jv import jaxsym as J
  n = len(a)
  out = []
  for k in range(n):
    xs, ys = [], []
    for i in range(n):
      j = (k - i) % n
      xs.append(a[i])
      ys.append(b[j] if i <= k else J.m_addsub(0, b[j], 'uint32', -1))
    out.append(J.m_dot(xs, ys, 'uint32'))
  return out


def raw_rlwe_phase(rows, key):
  """Coefficients of b - sum a_i s_i for an RLWE ciphertext (raw terms)."""
  from jv import jaxsym as J
  acc = list(rows[-1])
  for a, s in zip(rows[:-1], key):
    p = raw_negacyclic(list(a), list(s))
    acc = [J.m_addsub(x, y, 'uint32', -1) for x, y in zip(acc, p)]
  return acc


def near(x, target, bound, w=32):
  """Formula: x is within bound of target modulo 2^w (raw terms)."""
  from jv import jaxsym as J, smt, terms as T
  p = T.p_add(smt.raw(x), smt.raw(target), -1)
  p = T.p_add(p, T.p_const(bound))
  p = T.p_mod(p, 1 << w)
  # prefer the representative whose own interval is small
  d = T.mk(p)
  if T.lo_(d) >= 0 and T.hi_(d) <= 2 * bound:
    return smt.TRUE
  r = T.mod(d, 1 << w)
  return smt.Le(r, 2 * bound)
