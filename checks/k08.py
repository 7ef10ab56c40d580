"""K08: ciphertext multiplication and relinearisation."""
JOBS = 8
ASSUMPTIONS = [
    'Ring sizes, modulus chains and digit counts are the listed ones; every '
    'reduced ciphertext and every reduced evaluation key is covered.',
    'Barrett reduction is replaced by its contract (decided by K01), its '
    'input range being proved here as a side goal.',
]

import math
import jax
import jax.numpy as jnp
import numpy as np
from checks.ckks import *
from checks.k03 import primes, evaluate, interpolate
from checks.k05 import lift
from jaxite.jaxite_ckks import mul, types


def mods(xs, q):
  return [T.mod(v, q) for v in xs]


def extend(col, parts, qs, alls):
  """Digits of a polynomial in evaluation form, extended to every modulus.

  col: (N, L) terms. Yields, per part, an (N, |alls|) array.
  """
  n = col.shape[0]
  for sel in parts:
    src = [qs[i] for i in sel]
    co = {i: mods(interpolate(list(col[:, i]), qs[i]), qs[i]) for i in sel}
    y = [lift([co[i][t] for i in sel], src)[0] for t in range(n)]
    out = np.empty((n, len(alls)), object)
    for j, m in enumerate(alls):
      if j in sel:
        out[:, j] = col[:, j]
      else:
        v = evaluate(mods(y, m), m)
        for t in range(n):
          out[t, j] = T.mod(v[t], m)
    yield out


def parts_of(count, dnum):
  a = -(-count // dnum)
  return [list(range(i, min(i + a, count))) for i in range(0, count, a)]


def mod_down(v, qs, ps):
  """(v - [v]_P lifted)/P per q; v: (N, |qs|+|ps|)."""
  n, l = v.shape[0], len(qs)
  p = math.prod(ps)
  co = [mods(interpolate(list(v[:, l + k]), m), m) for k, m in enumerate(ps)]
  y = [lift([c[t] for c in co], ps)[0] for t in range(n)]
  out = np.empty((n, l), object)
  for i, q in enumerate(qs):
    d = evaluate(mods(y, q), q)
    for t in range(n):
      out[t, i] = T.mul(T.sub(v[t, i], d[t]), pow(p, -1, q))
  return out


def relin_spec(x, a, b, qs, ps, dnum):
  """x: (3, N, L); a, b: (dnum, N, L+K) -> (2, N, L)."""
  alls = list(qs) + list(ps)
  n = x.shape[1]
  acc = np.zeros((2, n, len(alls)), object)
  for k, dig in enumerate(extend(x[2], parts_of(len(qs), dnum), qs, alls)):
    for t in range(n):
      for j in range(len(alls)):
        acc[0, t, j] = T.add(acc[0, t, j], T.mul(dig[t, j], b[k, t, j]))
        acc[1, t, j] = T.add(acc[1, t, j], T.mul(dig[t, j], a[k, t, j]))
  for i in np.ndindex(*acc.shape):
    acc[i] = T.mod(acc[i], alls[i[2]])
  out = np.empty((2, n, len(qs)), object)
  for e in range(2):
    d = mod_down(acc[e], qs, ps)
    for t in range(n):
      for i in range(len(qs)):
        out[e, t, i] = T.add(x[e, t, i], d[t, i])
  return out


def relin(qs, ps, last, dnum, r, c, tag, dt=U32, how='plain', kdt=U32):
  n, alls = r * c, list(qs) + list(ps)
  kd = len(parts_of(len(qs), dnum))

  def call(x, a, b):
    k = mul.Mul()
    if how == 'again':
      k.precompute_constants(alls[::-1][:3], alls[:1], 1, r, c)
    k.precompute_constants(list(qs) + list(last), ps, dnum, r, c,
                           composite_degree=len(last))
    if how == 'tree':
      leaves, tree = jax.tree_util.tree_flatten(k)
      k = jax.tree_util.tree_unflatten(tree, leaves)
    ct = types.Ciphertext(x, jnp.array(qs, dtype=dt))
    o = k.relinearize(ct, mul.EvaluationKeys(a, b, jnp.array(alls, dtype=dt)))
    return o.data, o.moduli

  def inputs():
    return [residues('x', (3, n, len(qs)), qs, dt),
            residues('a', (kd, n, len(alls)), alls, kdt),
            residues('b', (kd, n, len(alls)), alls, kdt)]

  def goals(ins, outs):
    if outs[0].shape != (2, n, len(qs)):
      return [('shape', smt.FALSE)]
    spec = relin_spec(ins[0].x, ins[1].x, ins[2].x, qs, ps, dnum)
    g = canon('', outs[0], qs, spec)
    g += [(f'modulus {i}', smt.Eq(outs[1].x[i], q)) for i, q in enumerate(qs)]
    return g
  return Obl(f'relinearize {r}x{c} q={len(qs)} p={len(ps)} drop={len(last)} '
             f'dnum={dnum} {tag} {how} {dt}', call, inputs, goals,
             opaque=OPAQUE, nl=True,
             encoded=[mul.Mul.relinearize, mul.Mul.precompute_constants,
                      mul.Mul.compute_control_indices],
             bounds=f'every reduced ciphertext and key; q={qs} p={ps}')


def tensor(qs, r, c, dt, tag):
  n = r * c

  def call(x, y):
    k = mul.Mul()
    k.precompute_constants(list(qs) + [12289], [40961], 1, r, c)
    m = jnp.array(qs, dtype=dt)
    o = k.tensor_multiply(types.Ciphertext(x, m), types.Ciphertext(y, m))
    return o.data, o.moduli

  def goals(ins, outs):
    x, y = ins[0].x, ins[1].x
    if outs[0].shape != (3, n, len(qs)):
      return [('shape', smt.FALSE)]
    spec = np.empty((3, n, len(qs)), object)
    for t in range(n):
      for i in range(len(qs)):
        spec[0, t, i] = T.mul(x[0, t, i], y[0, t, i])
        spec[1, t, i] = T.add(T.mul(x[0, t, i], y[1, t, i]),
                              T.mul(x[1, t, i], y[0, t, i]))
        spec[2, t, i] = T.mul(x[1, t, i], y[1, t, i])
    return canon('', outs[0], qs, spec) + [
        (f'modulus {i}', smt.Eq(outs[1].x[i], q)) for i, q in enumerate(qs)]
  return Obl(f'tensor_multiply {tag} {dt}', call,
             lambda: [residues('x', (2, n, len(qs)), qs, dt),
                      residues('y', (2, n, len(qs)), qs, dt)], goals,
             nl=True, encoded=[mul.Mul.tensor_multiply],
             bounds=f'every reduced pair; moduli {qs}')


def plain(kind, qs, n, e, dt, tag):
  def call(x, y):
    m = jnp.array(qs, dtype=dt)
    if kind == 'barrett':
      k = mul.MulPlaintextCiphertextBarrett(
          barrett.precompute_barrett_constants(list(qs)))
      leaves, tree = jax.tree_util.tree_flatten(k)
      k = jax.tree_util.tree_unflatten(tree, leaves)
    else:
      k = mul.MulPlaintextCiphertextSimple()
    o = k.mul(types.Ciphertext(x, m), types.Plaintext(y, m))
    return o.data, o.moduli

  def goals(ins, outs):
    x, y = ins[0].x, ins[1].x
    if outs[0].shape != (e, n, len(qs)):
      return [('shape', smt.FALSE)]
    g = []
    for i in np.ndindex(e, n, len(qs)):
      v, m = T.mul(x[i], y[i[1:]]), qs[i[2]]
      if kind == 'barrett':
        g += [(f'{i} value', smt.Cong(outs[0].x[i], v, m)),
              (f'{i} range', smt.In(outs[0].x[i], 0, m - 1))]
      else:
        g.append((f'{i} product', smt.Eq(outs[0].x[i], v)))
    return g + [(f'modulus {i}', smt.Eq(outs[1].x[i], q))
                for i, q in enumerate(qs)]
  cls = (mul.MulPlaintextCiphertextBarrett if kind == 'barrett' else
         mul.MulPlaintextCiphertextSimple)
  return Obl(f'plaintext product {kind} {tag} {dt}', call,
             lambda: [residues('x', (e, n, len(qs)), qs, dt),
                      residues('y', (n, len(qs)), qs, dt)], goals, nl=True,
             opaque=OPAQUE, encoded=[cls.mul],
             bounds=f'every reduced pair; moduli {qs}')


def refusal(name, call, encoded):
  return Obl(name, call, lambda: [residues('x', (3, 4, 2), [97, 193])],
             lambda i, o: [('refused', smt.FALSE)],
             on_raise=lambda i, e: [('is ValueError', smt.TRUE if isinstance(
                 e, ValueError) else smt.FALSE)],
             encoded=encoded, bounds='one state')


def obligations(tier):
  p31, p30, p28 = primes(64, 31, 3), primes(64, 30, 8), primes(64, 28, 3)
  obs = []
  q2, q3 = p30[:2], p30[:3]
  sp1, sp2 = p30[5:6], p30[5:7]
  last = [p30[4]]
  obs += [
      relin(q2, sp1, last, 2, 2, 2, '30-bit'),
      relin(q2, sp2, last, 1, 2, 2, '30-bit'),
      relin(q3, sp1, last, 3, 2, 1, '30-bit'),
      relin(q3, sp2, last, 2, 2, 1, 'uneven digits'),
      relin(q3, sp2, last + [p30[7]], 2, 2, 1, 'composite', kdt=U64),
      relin(p31[:2], [p31[2]], last, 2, 2, 1, '31-bit'),
      relin([p28[0], 97], p31[:1], [12289], 2, 2, 1, 'mixed'),
      relin([97, p31[0]], [12289, 193], last, 1, 2, 1, 'mixed small P'),
      relin(q2, sp1, last, 2, 2, 1, '30-bit', dt=U64),
      relin(q2, sp1, last, 2, 2, 1, '30-bit', how='tree'),
      relin(q2, sp1, last, 2, 2, 1, '30-bit', how='again'),
      relin(p30[:1], sp1, last, 1, 2, 2, 'one modulus'),
      relin(p30[:4], sp2, [p30[4]], 3, 2, 1, 'four over three digits'),
  ]
  for dt in (U32, U64):
    obs.append(tensor(q2, 2, 2, dt, '30-bit'))
    obs.append(tensor(p31[:2] + [97], 2, 1, dt, '31-bit'))
    obs.append(plain('barrett', q2, 3, 2, dt, '30-bit'))
    obs.append(plain('barrett', p31[:2] + [97], 2, 2, dt, '31-bit'))
  obs.append(plain('simple', q2, 3, 2, U64, '30-bit'))
  big = jnp.array([97, 193], dtype=U32)
  obs += [
      refusal('relinearize before precomputation',
              lambda x: mul.Mul().relinearize(
                  types.Ciphertext(x, big), None), [mul.Mul.relinearize]),
      refusal('tensor_multiply before precomputation',
              lambda x: mul.Mul().tensor_multiply(
                  types.Ciphertext(x, big), types.Ciphertext(x, big)).data,
              [mul.Mul.tensor_multiply]),
      refusal('modulus of 32 bits in q is refused',
              lambda x: mul.Mul().precompute_constants(
                  [2**31 + 11, 97, 193], [12289], 1, 2, 2) or x,
              [mul.Mul.precompute_constants]),
      refusal('modulus of 32 bits in p is refused',
              lambda x: mul.Mul().precompute_constants(
                  [97, 193], [2**31 + 11], 1, 2, 2) or x,
              [mul.Mul.precompute_constants]),
      refusal('plaintext over other moduli is refused',
              lambda x: mul.MulPlaintextCiphertextBarrett(
                  barrett.precompute_barrett_constants([97, 193])).mul(
                      types.Ciphertext(x, big), types.Plaintext(
                          x[0], jnp.array([97, 257], dtype=U32))).data,
              [mul.MulPlaintextCiphertextBarrett.mul]),
  ]
  if tier == 'thorough':
    obs += [relin(q3, sp2, last, 2, 2, 4, 'N=8'),
            relin(p30[:5], sp2, [p30[7]], 3, 2, 2, 'five moduli'),
            tensor(q3, 4, 4, U32, 'N=16')]
  return obs
