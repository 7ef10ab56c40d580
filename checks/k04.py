"""K04: residue number system conversion."""
JOBS = 8
ASSUMPTIONS = [
    'Moduli sets are the listed pairwise coprime ones (1 to 6 moduli of 2 to '
    '60 bits); every residue vector and every integer is covered.',
    'Decode: the integers handed to the floating-point embedding are decided; '
    'the floating-point part is property S01.',
]

import math
import numpy as np
from checks.ckks import *
from checks.k03 import primes, evaluate, interpolate, apply_flat
from jaxite.jaxite_ckks import encode, ntt_cpu, rns_utils
from jaxite.jaxite_ckks import types as ktypes
from jv import pysym as P

CTX = P.PyCtx(lambda: [rns_utils])
SETS = [[97], [97, 193], [3, 5, 7], [4, 9, 25, 49],
        [1073741441, 1073740609], [1073741441, 1073740609, 1073739937],
        [268435361, 12289, 2147483489, 40961],
        [2**31 - 1, 2**61 - 1], [1073741441, 97, 1073740609, 193, 257, 65537]]


def crt(ms, slack):
  n = 3

  def inputs():
    hi = [(m - 1) if not slack else 2 * m + 5 for m in ms for _ in range(n)]
    lo = 0 if not slack else [-m for m in ms for _ in range(n)]
    return [P.pvar('r', (len(ms), n), lo, hi)]

  def goals(ins, outs):
    if len(outs) != n:
      return [('count', smt.FALSE)]
    q = math.prod(ms)
    g = []
    for j in range(n):
      v = outs[j].x[()]
      g.append((f'{j} range', smt.In(v, 0, q - 1)))
      for i, m in enumerate(ms):
        g.append((f'{j} residue {i}', smt.Cong(v, ins[0].x[i, j], m)))
    return g
  return Obl(f'reconstruct_crt {ms} slack={slack}',
             lambda r: rns_utils.reconstruct_crt(P.lst(r), list(ms)),
             inputs, goals, mode='py', pyctx=CTX,
             encoded=[rns_utils.reconstruct_crt,
                      rns_utils.compute_q_hat_inv_mod_q],
             bounds='every residue vector' + (
                 ', residues not necessarily reduced' if slack else ''))


def there_and_back(ms):
  q = math.prod(ms)

  def call(x):
    xs = P.lst(x)
    return rns_utils.reconstruct_crt(
        [[v % m for v in xs] for m in ms], list(ms))
  return Obl(f'split then reconstruct {ms}', call,
             lambda: [P.pvar('x', (2,), 0, q - 1)],
             lambda i, o: [(f'{k}', smt.Eq(o[k].x[()], i[0].x[k]))
                           for k in range(2)],
             mode='py', pyctx=CTX, encoded=[rns_utils.reconstruct_crt],
             bounds=f'every integer below {q}')


def qhat(ms, ps):
  """Definition of the conversion constants (concrete moduli)."""
  q = math.prod(ms)

  def call(x):
    xi = P.lst(x)
    inv = rns_utils.compute_q_hat_inv_mod_q(list(ms))
    hat = rns_utils.compute_q_hat_mod_p(list(ms), list(ps))
    # sum_i x_i * inv_i * hat_i  mod p, a multilinear function of x
    return [sum(xi[i] * hat[i][j] for i in range(len(ms)))
            for j in range(len(ps))], [xi[i] * inv[i] * (q // m)
                                       for i, m in enumerate(ms)]

  def goals(ins, outs):
    x = ins[0].x
    g = []
    k = len(ps)
    for j, p in enumerate(ps):
      g.append((f'hat {j}', smt.Cong(outs[j].x[()], T.total(
          [T.mul(x[i], q // m) for i, m in enumerate(ms)]), p)))
      g.append((f'hat reduced {j}', smt.Le(outs[j].x[()], T.total(
          [T.mul(x[i], p - 1) for i in range(len(ms))]))))
    for i, m in enumerate(ms):
      g.append((f'inverse {i}', smt.Cong(outs[k + i].x[()], x[i], m)))
      g.append((f'inverse reduced {i}', smt.Le(outs[k + i].x[()], T.mul(
          x[i], (m - 1) * (q // m)))))
    return g
  return Obl(f'conversion constants {ms} -> {ps}', call,
             lambda: [P.pvar('x', (len(ms),), 0, 2**32)], goals, mode='py',
             pyctx=CTX, encoded=[rns_utils.compute_q_hat_mod_p,
                                 rns_utils.compute_q_hat_inv_mod_q],
             bounds='used as linear maps on every vector')


def bits():
  def rev(x):
    return rns_utils.bit_reversal(x, st['n'])
  st = {}

  def inputs(n):
    st['n'] = n
    return [P.pvar('x', (), 0, (1 << n) - 1 if n else 0)]

  def goals(ins, outs):
    n = st['n']
    b = J.bits_of(ins[0].x[()], n)
    return [('reversed', smt.Eq(outs[0].x[()], T.total(
        [T.mul(b[i], 1 << (n - 1 - i)) for i in range(n)])))]
  return Obl('bit_reversal', rev, inputs, goals, mode='py', pyctx=CTX,
             cases=[0, 1, 2, 3, 5, 8, 16], encoded=[rns_utils.bit_reversal],
             bounds='every value of up to 16 bits')


def rev_array():
  st = {}

  def inputs(n):
    st['n'] = n
    return [P.pvar('x', (n,), -2**40, 2**40)]

  def call(x):
    xs = P.lst(x)
    rns_utils.bit_reversal_array(xs)
    return xs

  def goals(ins, outs):
    from checks.k03 import brv
    n = st['n']
    return [(f'{i}', smt.Eq(outs[i].x[()], ins[0].x[brv(i, n)]))
            for i in range(n)]
  return Obl('bit_reversal_array', call, inputs, goals, mode='py', pyctx=CTX,
             cases=[1, 2, 4, 8, 16, 32],
             encoded=[rns_utils.bit_reversal_array], bounds='every array')


def helpers():
  def call(x, q):
    return [rns_utils.is_power_of_two(x), rns_utils.num_bits(abs(x) + 1)]

  def goals(ins, outs):
    x = ins[0].x[()]
    pw = smt.Or(*[smt.Eq(x, 1 << k) for k in range(12)])
    o = outs[0].x[()]
    y = T.add(T.ite(T.ge(x, 0), x, T.sub(0, x)), 1)
    g = [('power of two', smt.And(smt.Implies(pw, smt.Eq(o, 1)),
                                  smt.Or(pw, smt.Eq(o, 0)))),
         ('num_bits', smt.Eq(outs[1].x[()], T.total(
             [T.ge(y, 1 << k) for k in range(1, 13)])))]
    return g
  return Obl('is_power_of_two, num_bits', call,
             lambda: [P.pvar('x', (), -3, 130), P.pvar('q', (), 0, 1)],
             goals, mode='py', pyctx=CTX,
             encoded=[rns_utils.is_power_of_two, rns_utils.num_bits],
             bounds='x in [-3, 130]', max_paths=40)


def decode(ms, n, slots):
  """Integers decode hands to the embedding: centred representatives."""
  q = math.prod(ms)

  def inputs():
    return [P.pvar('d', (n, len(ms)), 0, [m - 1 for m in ms] * n)]

  def call(d):
    cap = P.Capture()
    dec = encode.Decode(cap, n // 2)
    dec.decode(ktypes.Plaintext(P.arr(d, np.uint32),
                                np.array(ms, dtype=np.uint32)),
               is_slot_form=slots)
    return list(cap.seen)

  def goals(ins, outs):
    d = ins[0].x
    if len(outs) != n:
      return [('count', smt.FALSE)]
    if slots:
      d = apply_flat(d.reshape(1, n, len(ms)), ms, interpolate).reshape(
          n, len(ms))
    g = []
    for j in range(n):
      v = outs[j].x[()]
      g.append((f'{j} centred', smt.In(v, -(q // 2), q // 2)))
      for i, m in enumerate(ms):
        g.append((f'{j} residue {i}', smt.Cong(v, d[j, i], m)))
    return g
  return Obl(f'decode integers {ms} N={n} slots={slots}', call, inputs, goals,
             mode='py', pyctx=P.PyCtx(lambda: [rns_utils, ntt_cpu, encode]),
             encoded=[encode.Decode.decode], max_paths=80,
             bounds='every reduced plaintext')


def obligations(tier):
  obs = []
  for ms in SETS:
    obs += [crt(ms, False), crt(ms, True), there_and_back(ms)]
  obs += [qhat([97, 193], [257, 65537]), qhat([3, 5, 7], [11, 13]),
          qhat([1073741441, 1073740609, 1073739937],
               [268435361, 2147483489, 12289]), qhat([97], [193, 257])]
  obs += [bits(), rev_array(), helpers()]
  obs += [decode([97, 193], 2, False), decode([97, 193], 2, True),
          decode(primes(8, 30, 2), 4, True), decode(primes(8, 30, 3), 4, False),
          decode([97], 4, False)]
  if tier == 'thorough':
    big = primes(64, 30, 8)
    obs += [crt(big, False), crt(big, True), there_and_back(big),
            crt(primes(64, 60, 6), True), there_and_back(primes(64, 60, 12))]
  return obs
