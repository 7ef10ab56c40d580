"""K09: rescaling."""
JOBS = 8
ASSUMPTIONS = [
    'Ring sizes and modulus chains are the listed ones; every reduced '
    'ciphertext is covered.',
    'Barrett reduction inside the NTT kernels is replaced by its contract '
    '(decided by K01), its input range being proved here as a side goal.',
]

import jax
import jax.numpy as jnp
import numpy as np
from checks.ckks import *
from checks.k03 import primes, evaluate, interpolate
from jaxite.jaxite_ckks import rescale, types


def centred(v, q):
  v = T.mod(v, q)
  return T.sub(v, T.mul(q, T.ge(v, (q + 1) // 2)))


def rescale_spec(x, ms, count):
  """x: (E, N, L) exact terms -> (x - [x]_q)/q per remaining modulus."""
  x = x.copy()
  for k in range(count):
    ql, rest = ms[-1], ms[:-1]
    e, n = x.shape[:2]
    y = np.empty((e, n, len(rest)), object)
    for a in range(e):
      c = [centred(v, ql) for v in interpolate(list(x[a, :, -1]), ql)]
      for i, q in enumerate(rest):
        inv = pow(ql, -1, q)
        d = evaluate(c, q)
        for t in range(n):
          v = T.mul(T.sub(x[a, t, i], d[t]), inv)
          y[a, t, i] = T.mod(v, q) if k + 1 < count else v
    x, ms = y, rest
  return x, ms


def one(ms, count, r, c, e, dt, tag, via=False, cdt=U64):
  shape = (e, r * c, len(ms))

  def call(x):
    k = rescale.Rescale()
    k.precompute_constants(iter(ms), count, r, c)
    if via:
      leaves, tree = jax.tree_util.tree_flatten(k)
      k = jax.tree_util.tree_unflatten(tree, leaves)
    ct = types.Ciphertext(x, jnp.array(ms, dtype=cdt))
    ret = k.rescale(ct)
    assert ret is None or ret is ct
    return ct.data, ct.moduli

  def goals(ins, outs):
    spec, rest = rescale_spec(ins[0].x, ms, count)
    if outs[0].shape != spec.shape or outs[1].shape != (len(rest),):
      return [('shape', smt.FALSE)]
    g = canon('', outs[0], rest, spec)
    for i, q in enumerate(rest):
      g.append((f'modulus {i}', smt.Eq(outs[1].x[i], q)))
    return g
  return Obl(f'rescale x{count} {r}x{c} {shape} {dt} {tag}'
             + (' via pytree' if via else ''), call,
             lambda: [residues('x', shape, ms, dt)], goals, opaque=OPAQUE,
             encoded=[rescale.Rescale.rescale,
                      rescale.Rescale.precompute_constants,
                      rescale._gamma_beta_calculation],
             bounds=f'every reduced ciphertext; moduli {ms}')


def unready():
  return Obl('rescale before precomputation is refused',
             lambda x: rescale.Rescale().rescale(types.Ciphertext(
                 x, jnp.array([97, 193], dtype=U64))),
             lambda: [residues('x', (2, 4, 2), [97, 193])],
             lambda i, o: [('refused', smt.FALSE)],
             on_raise=lambda i, e: [('is ValueError', smt.TRUE if isinstance(
                 e, ValueError) else smt.FALSE)],
             encoded=[rescale.Rescale.rescale], bounds='one state')


def obligations(tier):
  p31, p30, p28 = primes(64, 31, 2), primes(64, 30, 4), primes(64, 28, 3)
  small = [97, 193, 12289]
  obs = []
  for tag, ms in (('30-bit', p30[:3]), ('31-bit', p31 + p30[:1]),
                  ('small last', p30[:2] + [97]),
                  ('slightly larger last', p30[1:3] + p30[:1]),
                  ('larger last', p28[:2] + p30[:1]),
                  ('much larger last', [97, 12289, p31[0]])):
    obs.append(one(ms, 1, 2, 2, 2, U32, tag))
    obs.append(one(ms, 1, 2, 1, 2, U32, tag, cdt=U32))
    if len(ms) > 2:
      obs.append(one(ms, 2, 2, 1, 2, U32, tag))
  obs.append(one(p30, 1, 2, 4, 2, U32, 'N=8'))
  obs.append(one(p30, 1, 4, 2, 1, U64, 'N=8'))
  obs.append(one(p30, 2, 2, 2, 2, U32, 'four'))
  obs.append(one(p30, 3, 2, 1, 2, U64, 'four'))
  obs.append(one(p30[:2], 1, 2, 2, 3, U32, 'two'))
  obs.append(one(small, 1, 2, 2, 2, U32, 'small', via=True))
  obs.append(one(p30[:3], 2, 2, 2, 2, U32, 'again', via=True))
  if tier == 'thorough':
    obs.append(one(p30, 2, 4, 4, 2, U32, 'N=16'))
    obs.append(one(p30, 3, 2, 2, 2, U32, 'deep'))
    obs.append(one(primes(256, 30, 6), 1, 4, 8, 2, U32, 'N=32'))
  obs.append(unready())
  return obs
