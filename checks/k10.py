"""K10: key switching and conjugation."""
JOBS = 8
ASSUMPTIONS = [
    'Ring sizes, modulus chains and digit counts are the listed ones; every '
    'reduced ciphertext and every reduced key is covered.',
    'Barrett reduction is replaced by its contract (decided by K01), its '
    'input range being proved here as a side goal.',
]

import math
import jax
import jax.numpy as jnp
import numpy as np
from checks.ckks import *
from checks.k03 import primes, evaluate, interpolate, brv
from checks.k08 import extend, parts_of
from checks.k09 import rescale_spec
from jaxite.jaxite_ckks import (basis_conversion, conjugate, key_switching,
                                mul, rescale, types)


def ks_spec(x, a, b, qs, ps, dnum):
  """x: (2, N, L) -> (2, N, L+K): P*c0 + sum digit*b, sum digit*a."""
  alls = list(qs) + list(ps)
  n, p = x.shape[1], math.prod(ps)
  acc = np.zeros((2, n, len(alls)), object)
  for k, dig in enumerate(extend(x[1], parts_of(len(qs), dnum), qs, alls)):
    for t in range(n):
      for j in range(len(alls)):
        acc[0, t, j] = T.add(acc[0, t, j], T.mul(dig[t, j], b[k, t, j]))
        acc[1, t, j] = T.add(acc[1, t, j], T.mul(dig[t, j], a[k, t, j]))
  for t in range(n):
    for j in range(len(qs)):
      acc[0, t, j] = T.add(acc[0, t, j], T.mul(x[0, t, j], p % qs[j]))
  return acc


def controls(qs, ps, dnum, pad):
  alls = range(len(qs) + len(ps))
  return [([0], [1])] * pad + [
      (sel, [j for j in alls if j not in sel])
      for sel in parts_of(len(qs), dnum)]


def kernels(qs, ps, dnum, r, c, pad, how, cls):
  k = cls()
  if how == 'again':
    k.precompute_constants(list(ps) + list(qs)[:1], list(qs)[1:2] or
                           [12289], 1, r, c)
  k.precompute_constants(list(qs), list(ps), dnum, r, c)
  if how == 'tree':
    leaves, tree = jax.tree_util.tree_flatten(k)
    k = jax.tree_util.tree_unflatten(tree, leaves)
  bc = basis_conversion.BasisConversionBarrett()
  bc.precompute_constants(list(qs) + list(ps), controls(qs, ps, dnum, pad))
  mk = mul.MulPlaintextCiphertextBarrett(
      barrett.precompute_barrett_constants(list(qs) + list(ps)))
  return k, bc, mk


def switch(qs, ps, dnum, r, c, tag, dt=U32, how='plain', pad=0, mdt=None):
  n, alls = r * c, list(qs) + list(ps)
  kd = len(parts_of(len(qs), dnum))
  mdt = mdt or dt

  def call(x, a, b):
    k, bc, mk = kernels(qs, ps, dnum, r, c, pad, how,
                        key_switching.KeySwitcher)
    o = k.key_switch(types.Ciphertext(x, jnp.array(qs, dtype=mdt)),
                     types.EvaluationKeys(a, b, jnp.array(alls, dtype=mdt)),
                     jnp.array(ps, dtype=mdt), bc, mk, pad)
    return o.data, o.moduli

  def inputs():
    return [residues('x', (2, n, len(qs)), qs, dt),
            residues('a', (kd, n, len(alls)), alls, dt),
            residues('b', (kd, n, len(alls)), alls, dt)]

  def goals(ins, outs):
    if outs[0].shape != (2, n, len(alls)):
      return [('shape', smt.FALSE)]
    spec = ks_spec(ins[0].x, ins[1].x, ins[2].x, qs, ps, dnum)
    return canon('', outs[0], alls, spec) + [
        (f'modulus {i}', smt.Eq(outs[1].x[i], q)) for i, q in enumerate(alls)]
  return Obl(f'key_switch {r}x{c} q={len(qs)} p={len(ps)} dnum={dnum} {tag} '
             f'{how} {dt}/{mdt} from {pad}', call, inputs, goals,
             opaque=OPAQUE, nl=True,
             encoded=[key_switching.KeySwitcher.key_switch,
                      key_switching.KeySwitcher.precompute_constants],
             bounds=f'every reduced ciphertext and key; q={qs} p={ps}')


def flip(x, qs):
  """X -> X^-1, coefficientwise, in evaluation form."""
  out = np.empty(x.shape, object)
  n = x.shape[1]
  for e in range(x.shape[0]):
    for i, q in enumerate(qs):
      c = interpolate(list(x[e, :, i]), q)
      d = [c[0]] + [T.sub(0, c[n - t]) for t in range(1, n)]
      v = evaluate(d, q)
      for t in range(n):
        out[e, t, i] = T.mod(v[t], q)
  return out


def conj(qs, ps, dnum, r, c, tag, dt=U32, how='plain', pad=0):
  n, alls = r * c, list(qs) + list(ps)
  kd = len(parts_of(len(qs), dnum))

  def call(x, a, b):
    k, bc, mk = kernels(qs, ps, dnum, r, c, pad, how, conjugate.Conjugation)
    rs = rescale.Rescale()
    rs.precompute_constants(alls, len(ps), r, c)
    o = k.conjugate(types.Ciphertext(x, jnp.array(qs, dtype=dt)),
                    types.EvaluationKeys(a, b, jnp.array(alls, dtype=dt)),
                    jnp.array(ps, dtype=dt), bc, mk, rs, pad)
    return o.data, o.moduli

  def inputs():
    return [residues('x', (2, n, len(qs)), qs, dt),
            residues('a', (kd, n, len(alls)), alls, dt),
            residues('b', (kd, n, len(alls)), alls, dt)]

  def goals(ins, outs):
    if outs[0].shape != (2, n, len(qs)):
      return [('shape', smt.FALSE)]
    s = ks_spec(flip(ins[0].x, qs), ins[1].x, ins[2].x, qs, ps, dnum)
    for i in np.ndindex(*s.shape):
      s[i] = T.mod(s[i], alls[i[2]])
    spec, _ = rescale_spec(s, alls, len(ps))
    return canon('', outs[0], qs, spec) + [
        (f'modulus {i}', smt.Eq(outs[1].x[i], q)) for i, q in enumerate(qs)]
  return Obl(f'conjugate {r}x{c} q={len(qs)} p={len(ps)} dnum={dnum} {tag} '
             f'{how} {dt}', call, inputs, goals, opaque=OPAQUE, nl=True,
             encoded=[conjugate.Conjugation.conjugate,
                      key_switching.KeySwitcher.key_switch],
             bounds=f'every reduced ciphertext and key; q={qs} p={ps}')


def obligations(tier):
  p31, p30, p28 = primes(64, 31, 3), primes(64, 30, 8), primes(64, 28, 3)
  q2, q3, q4 = p30[:2], p30[:3], p30[:4]
  s1, s2, s3 = p30[5:6], p30[5:7], p30[5:8]
  obs = [
      switch(q2, s1, 2, 2, 2, '30-bit'),
      switch(q2, s2, 1, 2, 2, '30-bit', mdt=U64),
      switch(q3, s1, 3, 2, 1, '30-bit', pad=2),
      switch(q3, s2, 2, 2, 1, 'uneven digits'),
      switch(q4, s3, 2, 2, 1, 'three special', mdt=U64),
      switch(p31[:2], p31[2:], 2, 2, 1, '31-bit'),
      switch([p28[0], 97], p31[:1], 2, 2, 1, 'mixed'),
      switch([97, p31[0]], [12289, 193], 1, 2, 1, 'small P'),
      switch(q2, s1, 2, 2, 1, '30-bit', how='tree', mdt=U64),
      switch(q2, s1, 2, 2, 1, '30-bit', how='again', pad=1),
      switch(p30[:1], s1, 1, 4, 2, 'one modulus'),
      conj(q2, s1, 2, 2, 2, '30-bit'),
      conj(q3, s1, 2, 2, 1, 'uneven digits', pad=1),
      conj(q2, s2, 1, 2, 1, 'two special'),
      conj([97, 193], p31[:1], 2, 2, 1, 'large P'),
      conj(q2, s1, 2, 2, 1, '30-bit', how='tree'),
      conj(p30[:1], s1, 1, 2, 4, 'N=8'),
  ]
  if tier == 'thorough':
    obs += [switch(q3, s2, 2, 2, 4, 'N=8'), conj(q3, s2, 2, 2, 2, 'N=4')]
  return obs
