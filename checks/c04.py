"""C04: gadget decomposition and recomposition."""
JOBS = 8
ASSUMPTIONS = [
    'The digit base divides the word length, as the library requires.',
]

import jax
import jax.numpy as jnp
import numpy as np
from checks import common
common.cggi()
from jaxite.jaxite_cggi import decomposition as D
from jv import jaxsym as J
from jv import smt, terms as T
from jv.harness import Arr, Obl, obj, varr

U = 'uint32'


def exact_rt(case, tier='quick'):
  lb, L, tot = case

  def inputs():
    return [varr('x', (), U, 0, (1 << tot) - 1)]

  def call(x):
    d = D.decompose(x, lb, L, tot)
    return d, D.recompose(d, lb, tot)

  def goals(ins, outs):
    x = ins[0].x.item()
    d, r = outs
    drop = tot - lb * L
    g = [('len', smt.TRUE if d.shape == (L,) else smt.FALSE)]
    g += [(f'digit{i}', smt.Eq(d.x[i], T.mod(T.floordiv(
        x, 1 << (tot - lb * (i + 1))), 1 << lb))) for i in range(L)]
    g.append(('recompose', smt.Eq(r.x.item(), T.mul(
        T.floordiv(x, 1 << drop), 1 << drop))))
    return g
  return Obl(f'decompose/recompose base 2^{lb} levels {L} of {tot} bits', call,
             inputs, goals, encoded=[D.decompose, D.recompose],
             bounds='every word', tier=tier)


def summands(case):
  lb, L, tot = case

  def inputs():
    return [varr('x', (), U)]

  def call(x):
    return D.recomposition_summands(x, lb, L, tot)

  def goals(ins, outs):
    return [(f'{i}', smt.Cong(outs[0].r[i], T.mul(
        ins[0].x.item(), 1 << (tot - lb * (i + 1))), 1 << 32))
            for i in range(L)]
  return Obl(f'recomposition_summands {case}', call, inputs, goals,
             encoded=[D.recomposition_summands], bounds='every word')


def digits_ok(ds, x, lb, L, tot, tag=''):
  """Signed digits ds (raw u32, most significant first) represent x."""
  half = 1 << (lb - 1)
  g = []
  sgn = []
  for i in range(L):
    # signed value: (d + half mod 2^32) - half
    u = J.ex(J.m_addsub(ds[i], half, U, 1), U)
    g.append((f'{tag}digit{i} in [-B/2,B/2)', smt.Le(u, (1 << lb) - 1)))
  drop = tot - lb * L
  acc = 0
  for i in range(L):
    acc = common.radd(acc, common.rmul(ds[i], 1 << (tot - lb * (i + 1))))
  t = drop // lb
  err = half * ((1 << (lb * t)) - 1) // ((1 << lb) - 1)
  if t:
    g.append((f'{tag}recomposition', common.near(acc, x, err, tot)))
  else:
    g.append((f'{tag}recomposition', smt.Cong(acc, x, 1 << tot)))
  return g


def signed(case, tier='quick'):
  lb, L, tot = case

  def inputs():
    return [varr('x', (), U, 0, (1 << tot) - 1, chunk=lb)]

  def call(x):
    return D.signed_decomposition(x, lb, L, tot)

  def goals(ins, outs):
    if outs[0].shape != (L,):
      return [('len', smt.FALSE)]
    return digits_ok(list(outs[0].r), ins[0].r.item(), lb, L, tot)
  return Obl(f'signed_decomposition base 2^{lb} levels {L} of {tot} bits',
             call, inputs, goals, encoded=[D.signed_decomposition],
             bounds='every word', tier=tier)


def rl(case, k, n, tier='quick'):
  lb, L, tot = case
  dp = D.DecompositionParameters(log_base=lb, level_count=L,
                                 total_bit_length=tot)

  def inputs():
    return [varr('c', (k + 1, n), U, 0, (1 << tot) - 1, chunk=lb)]

  def call(c):
    return D.decompose_rlwe_ciphertext(c, dp)

  def goals(ins, outs):
    o = outs[0]
    if o.shape != ((k + 1) * L, n):
      return [('shape', smt.FALSE)]
    g = []
    for p in range(k + 1):
      for j in range(n):
        g += digits_ok([o.r[p * L + l][j] for l in range(L)],
                       ins[0].r[p][j], lb, L, tot, f'p{p}c{j} ')
    return g
  return Obl(f'decompose_rlwe_ciphertext {case} k={k} N={n}', call, inputs,
             goals, encoded=[D.decompose_rlwe_ciphertext], chunk=8,
             bounds='every ciphertext', tier=tier)


def gadget(lb, L, vl, tot):
  """gadget_matrix, scaled by B^L, is block diagonal with powers of B."""
  dp = D.DecompositionParameters(log_base=lb, level_count=L)

  def inputs():
    return [varr('d', (vl * L,), 'int32', 0, (1 << lb) - 1)]

  def call(d):
    with jax.ensure_compile_time_eval():
      g = D.gadget_matrix(dp, vl, tot)
    g = jnp.asarray(np.rint(np.asarray(g, np.float64) * 2.0**(lb * L)),
                    jnp.int32)
    return jnp.dot(g, d)

  def goals(ins, outs):
    g = []
    for r in range(vl):
      g.append((f'row{r}', smt.Eq(outs[0].x[r], T.total(
          [T.mul(ins[0].x[r * L + l], 1 << (lb * (L - 1 - l)))
           for l in range(L)]))))
    return g
  return Obl(f'gadget_matrix base 2^{lb} L={L} length {vl}', call, inputs,
             goals, encoded=[D.gadget_matrix],
             bounds='every digit vector (the matrix itself is concrete)')


def obligations(tier):
  cases = [(lb, L, 32) for lb in (1, 2, 4, 8, 16) for L in
           sorted({1, 2, 3, 5, 6, 8, 32 // lb}) if lb * L <= 32]
  ragged = [(3, 2, 32), (5, 3, 32), (7, 4, 32), (6, 5, 32)]
  small = [(2, 3, 8), (4, 2, 8), (4, 3, 16), (4, 4, 16), (8, 2, 24)]
  obs = [exact_rt(c) for c in cases + ragged + small]
  obs += [summands(c) for c in cases[::2]]
  obs += [signed(c) for c in cases + small]
  obs += [rl((4, 5, 32), 1, 4), rl((4, 6, 32), 3, 2), rl((8, 2, 32), 1, 4),
          rl((8, 4, 32), 2, 2), rl((4, 2, 16), 1, 2)]
  obs += [gadget(4, 3, 2, 32), gadget(2, 4, 3, 32), gadget(8, 2, 2, 32)]
  obs += [rl((4, 6, 32), 1, 16, 'thorough'), rl((4, 5, 32), 3, 8, 'thorough')]
  obs += [exact_rt((lb, L, 32), 'thorough') for lb in range(1, 17)
          for L in range(1, 32 // lb + 1) if (lb, L, 32) not in cases]
  obs += [signed((lb, L, 32), 'thorough') for lb in (1, 2, 4, 8, 16)
          for L in range(1, 32 // lb + 1) if (lb, L, 32) not in cases]
  return obs
