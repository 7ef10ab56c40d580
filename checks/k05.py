"""K05: RNS basis conversion."""
JOBS = 8
ASSUMPTIONS = [
    'Bases are the listed ones; every reduced residue vector is covered.',
    'Barrett reduction is replaced by its contract (decided by K01), its '
    'input range being proved here as a side goal.',
]

import itertools
import math
import jax
import jax.numpy as jnp
import numpy as np
from checks.ckks import *
from checks.k03 import primes
from jaxite.jaxite_ckks import basis_conversion, rns_utils, bat_utils


def lift(x, src):
  """(y, X): the converted integer and the exact one, as terms."""
  q = math.prod(src)
  y = T.total([T.mul(T.mod(T.mul(x[i], pow(q // m, -1, m)), m), q // m)
               for i, m in enumerate(src)])
  return y, T.mod(y, q)


def conv_goals(label, x, out, src, dst):
  q = math.prod(src)
  y, xx = lift(x, src)
  g = [(f'{label} range {j}', smt.In(out[j], 0, p - 1))
       for j, p in enumerate(dst)]
  strong = smt.And(*[smt.Cong(out[j], y, p) for j, p in enumerate(dst)])
  if strong.op == 'true':
    for j, p in enumerate(dst):
      g.append((f'{label} value {j}', smt.Cong(out[j], y, p)))
  else:
    g.append((f'{label} value', smt.Or(*[
        smt.And(*[smt.Cong(out[j], T.add(xx, v * q), p)
                  for j, p in enumerate(dst)]) for v in range(len(src))])))
  for i, m in enumerate(src):
    g.append((f'{label} lift {i}', smt.Cong(y, x[i], m)))
  g.append((f'{label} excess', smt.In(y, 0, len(src) * q - 1)))
  return g


def conversion(chain, pairs, which, lead, dt, tag):
  src = [chain[i] for i in pairs[which][0]]
  dst = [chain[i] for i in pairs[which][1]]

  def call(x):
    k = basis_conversion.BasisConversionBarrett()
    k.precompute_constants(list(chain), [list(p) for p in pairs])
    return k.basis_change(x, control_index=which)

  def goals(ins, outs):
    x, o = ins[0].x, outs[0]
    if o.shape != lead + (len(dst),):
      return [('shape', smt.FALSE)]
    g = []
    for i in np.ndindex(*lead):
      g += conv_goals(str(i), x[i], o.x[i], src, dst)
    return g
  return Obl(f'basis_change {tag} {which} {lead} {dt}', call,
             lambda: [residues('x', lead + (len(src),), src, dt)], goals,
             opaque=OPAQUE,
             encoded=[basis_conversion.BasisConversionBarrett.basis_change,
                      basis_conversion.BasisConversionBarrett.
                      precompute_constants, rns_utils.compute_q_hat_mod_p,
                      bat_utils.matmul_bat_einsum],
             bounds=f'every reduced vector; {src} -> {dst}')


def again(chain):
  """Constants of an earlier chain do not survive a second precomputation."""
  other = primes(64, 28, 4)
  src, dst = chain[1:3], chain[:1] + chain[3:]

  def call(x):
    k = basis_conversion.BasisConversionBarrett()
    k.precompute_constants(other, [([0, 1], [2, 3]), ([0], [1])])
    k.precompute_constants(iter(chain), [([1, 2], [0] + list(range(
        3, len(chain))))])
    leaves, tree = jax.tree_util.tree_flatten(k)
    return jax.tree_util.tree_unflatten(tree, leaves).basis_change(x)
  return Obl('basis_change after a second precomputation', call,
             lambda: [residues('x', (2, 2), src)],
             lambda i, o: [g for k in range(2) for g in conv_goals(
                 str(k), i[0].x[k], o[0].x[k], src, dst)],
             opaque=OPAQUE,
             encoded=[basis_conversion.BasisConversionBarrett.
                      precompute_constants],
             bounds='every reduced vector')


def obligations(tier):
  obs = []
  c30 = primes(64, 30, 5)
  mixed = [primes(64, 31, 1)[0], 12289, primes(64, 28, 1)[0], 97, 40961]
  for tag, ch in (('30-bit', c30), ('mixed', mixed)):
    pairs = [([0], [1, 2]), ([0, 1], [2, 3, 4]), ([2, 4, 1], [0, 3]),
             ([4], [0]), ([3, 1], [4, 2, 0]), ([0, 1, 2, 3], [4])]
    for w in range(len(pairs)):
      obs.append(conversion(ch, pairs, w, (2,), U32, tag))
    obs.append(conversion(ch, pairs, 1, (1, 2), U64, tag))
    obs.append(conversion(ch, pairs, 2, (), U32, tag))
  obs.append(again(c30))
  if tier == 'thorough':
    big = primes(2**13, 30, 12)
    for k in (6, 10):
      pairs = [(list(range(k)), list(range(k, 12)))]
      obs.append(conversion(big, pairs, 0, (3,), U32, f'{k} moduli'))
  return obs
