"""Shared set-up for the elliptic-curve checks."""
import math

import jax
import jax.numpy as jnp
import numpy as np
from checks import common
common.ec()
jax.config.update('eager_constant_folding', True)

from jaxite.jaxite_ec import finite_field as ff, util
from jv import jaxsym as J, smt, terms as T
from jv.harness import Arr, Obl, const, obj, varr

U8, U16, U32, U64 = np.uint8, np.uint16, np.uint32, np.uint64
# BLS12-377 base field, as published; the library's own constant is checked.
P377 = 0x01AE3A4617C510EAC63B05C06CA1493B1A22D9F300F5138F1EF3622FBA094800170B5D44300000008508C00000000001


def num(v, base=16):
  """The integer a row of limbs stands for."""
  v = list(v)
  return T.total([T.mul(x, 1 << (base * i)) for i, x in enumerate(v)])


def limbs(name, shape, top=None, chunk=None, dt=U16, base=16):
  """Symbolic limb rows; the last limb is at most top."""
  n = shape[-1]
  w = (1 << base) - 1
  hi = ([w] * (n - 1) + [w if top is None else top]) * (
      int(np.prod(shape)) // n)
  return varr(name, shape, dt, [0] * len(hi), hi, chunk=chunk)


def rows(a):
  x = a.x
  return [list(r) for r in np.asarray(x, dtype=object).reshape(
      -1, x.shape[-1])]


def limb_goals(label, out, n, spec, base=16):
  """Goals: row by row, out holds the base-2^base limbs of spec."""
  g = []
  rs = rows(out)
  if out.shape[-1] != n or len(rs) != len(spec):
    return [(f'{label} shape', smt.FALSE)]
  for r, (row, s) in enumerate(zip(rs, spec)):
    for i, v in enumerate(row):
      g.append((f'{label}[{r}] limb {i}', smt.In(v, 0, (1 << base) - 1)))
    g.append((f'{label}[{r}] value', smt.Eq(num(row, base), s)))
  return g


def split(x, n, base=16):
  """Limbs of the integer term x (its exact base-2^base digits)."""
  out, f = [], x
  for i in range(n):
    g = T.floordiv(x, 1 << (base * (i + 1)))
    d = T.sub(f, T.mul(g, 1 << base))
    if isinstance(d, T.Sym):
      d = T.mk(d.p, max(d.lo, 0), min(d.hi, (1 << base) - 1))
    out.append(d)
    f = g
  return out


def atom(x):
  """Name a term, so that what is built from it stays small."""
  if not isinstance(x, T.Sym) or len(x.p) <= 4:
    return x
  return T.name(x)


def in_rows(x, dt=U16):
  x = J.as_obj(x)
  x = J.map1(lambda v: J.ex(v, dt), x)
  return [list(r) for r in x.reshape(-1, x.shape[-1])]


def out_rows(rs, shape):
  return [obj(shape, [v for r in rs for v in r])]
