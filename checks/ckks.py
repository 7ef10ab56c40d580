"""Shared pieces for the CKKS checks."""
import jax
import jax.numpy as jnp
import numpy as np
from checks import common
common.cggi()
jax.config.update('jax_enable_x64', True)
jax.config.update('eager_constant_folding', True)
from jaxite.jaxite_ckks import barrett
from jv import jaxsym as J
from jv import smt, terms as T
from jv.harness import Arr, Obl, const, obj, varr

U32, U64 = 'uint32', 'uint64'


def wide_bits(m):
  """Barrett reduction modulo m must hold for inputs below 2^this."""
  return 31 + (int(m) - 1).bit_length()


def _reduce(I, ins, params, eqn):
  """Contract of Barrett reduction (decided by K01): z mod m for z < 2^s."""
  fall = lambda: I.eval(params['jaxpr'].jaxpr, params['jaxpr'].consts, ins)
  z, cs = ins[0], ins[1:]
  if len(cs) != 4 or not all(J.is_conc(c) for c in cs):
    return fall()
  m, q, w, sw = [np.asarray(c) for c in cs]
  try:
    for mm, qq, ww, ss in zip(m.ravel(), q.ravel(), w.ravel(), sw.ravel()):
      if int(mm) != (1 << (int(ww) + int(ss))) // int(qq) or (
          int(ww) + int(ss) != wide_bits(int(qq))) or int(ww) != 32:
        return fall()
  except Exception:
    return fall()
  out = eqn.outvars[0].aval
  zd = eqn.invars[0].aval.dtype
  zx = J.map1(lambda v: J.ex(v, zd), J.as_obj(z))
  zb = np.broadcast_to(zx, out.shape)
  qb = np.broadcast_to(q, out.shape)
  res = np.empty(out.shape, object)
  for i in np.ndindex(*out.shape):
    mod = int(qb[i])
    lim = 1 << wide_bits(mod)
    if T.hi_(zb[i]) >= lim or T.lo_(zb[i]) < 0:
      I.side.append(('reduction input in the range of the reduction',
                     smt.In(zb[i], 0, lim - 1)))
    res[i] = T.mod(zb[i], mod)
  return [res]


OPAQUE = {'fn:modular_reduction': _reduce}


def residues(name, shape, moduli, dt=U32):
  """Symbolic residues; the last axis runs over the moduli."""
  hi = np.broadcast_to(np.array([int(m) - 1 for m in moduli], dtype=object),
                       shape).ravel()
  return varr(name, shape, dt, [0] * len(hi), list(hi))


def canon(label, outs, moduli, spec):
  """Goals: outs (exact, last axis moduli) are the canonical residues of spec."""
  g = []
  for i in np.ndindex(*outs.shape):
    m = int(moduli[i[-1]])
    g.append((f'{label}{i} value', smt.Cong(outs.x[i], spec[i], m)))
    g.append((f'{label}{i} range', smt.In(outs.x[i], 0, m - 1)))
  return g


def to_int(a):
  return [int(v) for v in np.asarray(a).ravel()]
