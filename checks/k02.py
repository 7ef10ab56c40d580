"""K02: byte-sliced matrix products."""
JOBS = 8
ASSUMPTIONS = [
    'Contraction sizes up to the stated ones; the number of summed byte '
    'products at which a 32-bit accumulator could overflow (16512 residues) '
    'lies outside, as it does for every ring degree the library supports.',
    'Moduli are the listed ones.',
]

import jax
import jax.numpy as jnp
import numpy as np
from checks.ckks import *
from jaxite.jaxite_ckks import bat_utils

SETS = [
    [1073184769, 1073479681],
    [268435361, 12289, 2147483489],
    [2147483647, 4294967291],
    [97, 65537, 1 << 24],
]


def transform(shape, ms, dt, tag):
  """basis_aligned_transformation: bytes of (matrix * 2^(8k)) mod m."""
  full = shape + (len(ms),)
  hi = 2**32 - 1 if dt == U32 else 2**40 - 1

  def goals(ins, outs):
    o = outs[0]
    if o.shape != (4,) + full + (4,):
      return [('shape', smt.FALSE)]
    g = []
    if np.dtype(o.dtype) != np.uint8:
      g.append(('dtype', smt.FALSE))
    for k in range(4):
      for i in np.ndindex(*full):
        m = ms[i[-1]]
        val = T.total([T.mul(o.x[(k,) + i + (b,)], 1 << (8 * b))
                       for b in range(4)])
        g.append((f'{k}{i} value', smt.Cong(
            val, T.mul(ins[0].x[i], 1 << (8 * k)), m)))
        g.append((f'{k}{i} reduced', smt.In(val, 0, m - 1)))
    return g
  return Obl(f'basis_aligned_transformation {tag} {dt}',
             lambda a: bat_utils.basis_aligned_transformation(
                 a, [int(m) for m in ms]),
             lambda: [varr('a', full, dt, 0, hi)], goals, chunk=4,
             encoded=[bat_utils.basis_aligned_transformation],
             bounds=f'every {dt} matrix of shape {full} up to {hi}; '
             f'moduli {ms}')


EIN = [
    # lhs shape, subscripts, rhs shape, merge, reference contraction
    ((2, 3, 2), '...rcmq,zqrpm->...zcmp', (2, 4, 2, 4, 2), False),
    ((1, 3, 2, 2), '...rcmq,zqrpm->...zcmp', (4, 4, 3, 4, 2), False),
    ((2, 3, 2), '...rcmq,cqnpm->...rnmp', (3, 4, 3, 4, 2), False),
    ((2, 2, 3, 2), '...rcmq,lqrpm->...lcmp', (2, 4, 2, 4, 2), False),
    ((3, 2), '...q,qpb->...pb', (8, 3, 4), True),
    ((2, 2, 3), '...q,qpb->...pb', (12, 2, 4), True),
    ((3,), '...q,qpb->...pb', (12, 1, 4), True),
]


def raw(case):
  """matmul_bat_einsum with a symbolic byte matrix."""
  lsh, sub, rsh, merge = case

  def inputs():
    return [varr('l', lsh, U32, 0, 2**32 - 1),
            varr('r', rsh, 'uint8', 0, 255)]

  def goals(ins, outs):
    l, r = ins
    lb = np.empty(lsh + (4,), object)
    for i in np.ndindex(*lsh):
      for b in range(4):
        lb[i + (b,)] = T.mod(T.floordiv(l.x[i], 1 << (8 * b)), 256)
    if merge:
      lb = lb.reshape(lb.shape[:-2] + (-1,))
    a, rest = sub.split(',')
    bsub, osub = rest.split('->')
    free = 'ABCDE'[:lb.ndim - len(a.replace('...', ''))]
    a, osub = a.replace('...', free), osub.replace('...', free)
    dims = dict(zip(a, lb.shape))
    for s, n in zip(bsub, r.shape):
      if dims.setdefault(s, n) != n:
        return [('shapes', smt.FALSE)]
    byte = osub[-1]
    oidx = osub[:-1]
    red = [s for s in dims if s not in osub]
    if outs[0].shape != tuple(dims[s] for s in oidx):
      return [('shape', smt.FALSE)]
    g = []
    for o in np.ndindex(*outs[0].shape):
      env = dict(zip(oidx, o))
      terms = []
      for k in np.ndindex(*[dims[s] for s in red]):
        env.update(zip(red, k))
        for p in range(4):
          env[byte] = p
          terms.append(T.mul(T.mul(lb[tuple(env[s] for s in a)],
                                   r.x[tuple(env[s] for s in bsub)]),
                             1 << (8 * p)))
      g.append((f'{o}', smt.Eq(outs[0].x[o], T.total(terms))))
    return g
  return Obl(f'matmul_bat_einsum {sub} {lsh}x{rsh}',
             lambda l, r: bat_utils.matmul_bat_einsum(
                 l, r, sub, merge_byte_dimension=merge),
             inputs, goals, chunk=8, encoded=[bat_utils.matmul_bat_einsum],
             bounds='every 32-bit left operand and every byte matrix')


def composed(n, k, ms, tag):
  """lhs (b,n) times matrix (n,k,m) through both helpers, exact mod m."""
  rng = np.random.RandomState(sum(ms) % 99991)
  mats = [np.array([[[int(rng.randint(0, 2**31)) % m for m in ms]
                     for _ in range(k)] for _ in range(n)], dtype=np.uint64),
          np.array([[[m - 1 for m in ms]] * k] * n, dtype=np.uint64),
          np.zeros((n, k, len(ms)), np.uint64)]
  st = {}

  def inputs(case):
    st['m'] = mats[case]
    return [varr('l', (n, 2, len(ms)), U32, 0, 2**32 - 1)]

  def call(l):
    tf = bat_utils.basis_aligned_transformation(
        jnp.asarray(st['m']), [int(m) for m in ms])
    return bat_utils.matmul_bat_einsum(
        l, tf.transpose(2, 0, 1, 4, 3), '...rcmq,zqrpm->...zcmp')

  def goals(ins, outs):
    g = []
    l = ins[0]
    if outs[0].shape != (k, 2, len(ms)):
      return [('shape', smt.FALSE)]
    for z in range(k):
      for c in range(2):
        for m in range(len(ms)):
          g.append((f'{z},{c},{m}', smt.Cong(
              outs[0].x[z, c, m],
              T.total([T.mul(l.x[i, c, m], int(st['m'][i, z, m]))
                       for i in range(n)]), ms[m])))
    return g
  return Obl(f'byte-sliced product n={n} {tag}', call, inputs, goals,
             cases=[0, 1, 2], chunk=8,
             encoded=[bat_utils.basis_aligned_transformation,
                      bat_utils.matmul_bat_einsum],
             bounds='every 32-bit left operand; fixed matrices (random, all '
             f'm-1, zero); moduli {ms}')


def wide(n, ms):
  """Large contraction: no accumulator overflow, result exact."""
  def inputs():
    return [varr('l', (n, len(ms)), U32, 2**32 - 1 - 3, 2**32 - 1)]

  def call(l):
    rhs = jnp.full((n * 4, 1, 4), 255, jnp.uint8)
    return bat_utils.matmul_bat_einsum(l.T, rhs, '...q,qpb->...pb',
                                       merge_byte_dimension=True)

  def goals(ins, outs):
    g = []
    for m in range(len(ms)):
      tot = []
      for i in range(n):
        for b in range(4):
          byte = T.mod(T.floordiv(ins[0].x[i, m], 1 << (8 * b)), 256)
          tot.append(T.mul(byte, 255 * 0x01010101))
      g.append((f'{m}', smt.Eq(outs[0].x[m, 0], T.total(tot))))
    return g
  return Obl(f'wide product of {n}', call, inputs, goals,
             encoded=[bat_utils.matmul_bat_einsum],
             bounds='operands within 3 of the 32-bit maximum')


def obligations(tier):
  obs = []
  for i, ms in enumerate(SETS):
    obs.append(transform((2,), ms, U32, f'#{i}'))
    obs.append(transform((2, 2), ms, U64, f'#{i}'))
    obs.append(composed(2, 2, ms, f'#{i}'))
    obs.append(composed(5, 3, ms, f'#{i}'))
  obs += [raw(c) for c in EIN]
  obs.append(wide(300, [1]))
  if tier == 'thorough':
    obs.append(wide(4096, [1]))
    for i, ms in enumerate(SETS):
      obs.append(composed(32, 4, ms, f'#{i}'))
      obs.append(transform((4, 3), ms, U64, f'4x3#{i}'))
  return obs
