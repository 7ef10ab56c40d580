"""K01: residue arithmetic kernels."""
JOBS = 8
ASSUMPTIONS = [
    'Moduli are the listed ones (every bit length from 2 to 31, both ends of '
    'each power of two, and moduli chosen so that a rounded quotient constant '
    'would be wrong).',
    'The wide range z < 2^(31 + bits of m) is what the byte-sliced kernels '
    '(NTT, basis conversion) hand to the reduction.',
]

import jax
import jax.numpy as jnp
import numpy as np
from checks.ckks import *
from jaxite.jaxite_ckks import add, mul
from jaxite.jaxite_ckks import types as ktypes


def prime(n):
  return n > 1 and all(n % p or n == p for p in (2, 3, 5, 7, 11, 13)) and all(
      pow(a, n - 1, n) == 1 for a in (2, 3, 5, 7, 11) if a % n)


def moduli_list():
  out = []
  for k in range(3, 32):
    out.append((1 << k) - 1)
    out.append((1 << (k - 1)) + 1)
    p = (1 << k) - 3
    while not prime(p):
      p -= 2
    out.append(p)
  # 2^(2k) mod m close to m: the quotient constant sits just below an integer
  out += [1824726041, 1574487853, 1946388001, 583550761, 950794993,
          1678548883, 1843087909, 2063085124, 934988071, 429444304]
  # NTT primes as used by the scheme
  out += [268435361, 268435009, 134219681, 134218433, 1073741441, 2147483489,
          2147483137, 12289, 40961, 65537, 7681, 257, 97, 17]
  return sorted(set(m for m in out if 2 <= m < 2**31))


# NTT-sized odd moduli that need not be prime for reduction itself


def reduction(ms, dt, tag, wide=False):
  lim = (1 << 32) - 1 if dt == U32 else None

  def inputs():
    top = [(1 << wide_bits(m)) if wide else m * m for m in ms]
    hi = [t - 1 if lim is None else min(t - 1, lim) for t in top]
    return [varr('z', (len(ms),), dt, [0] * len(ms), hi)]

  def call(z):
    return barrett.modular_reduction(
        z, barrett.precompute_barrett_constants([int(m) for m in ms]))

  def goals(ins, outs):
    if outs[0].shape != (len(ms),):
      return [('shape', smt.FALSE)]
    return canon('z', outs[0], ms, ins[0].x)
  return Obl(f'modular_reduction {dt} {tag} wide={wide}', call, inputs, goals, chunk=2,
             encoded=[barrett.modular_reduction,
                      barrett.precompute_barrett_constants],
             bounds=f'every {dt} z < '
             f'{"2^(31+bits of m)" if wide else "m^2"}; moduli {ms}')


def single():
  def inputs(m):
    st['m'] = m
    return [varr('z', (2, 3), U64, 0, m * m - 1)]
  st = {}

  def call(z):
    return barrett.modular_reduction(
        z, barrett.precompute_barrett_constants(st['m']))
  return Obl('modular_reduction, one modulus for a matrix', call, inputs,
             lambda i, o: canon('z', o[0], [st['m']] * 3, i[0].x),
             cases=[268435361, 97], encoded=[barrett.modular_reduction],
             bounds='every z < m^2')


def add_barrett(ms, dt, full, tag):
  st = {}

  def inputs():
    if full:   # anything whose sum stays below m^2
      h = [(m * m - 1) // 2 for m in ms] * 2
      return [varr(n, (2, len(ms)), dt, [0] * len(h), h) for n in 'ab']
    return [residues(n, (2, len(ms)), ms, dt) for n in 'ab']

  def call(a, b):
    return add.AddModularBarrett(barrett.precompute_barrett_constants(
        [int(m) for m in ms])).add(a, b)

  def goals(ins, outs):
    return canon('s', outs[0], ms, J.map2(T.add, ins[0].x, ins[1].x))
  return Obl(f'AddModularBarrett {dt} {tag} full={full}', call, inputs, goals,
             chunk=2, encoded=[add.AddModularBarrett.add],
             bounds=f'every operand pair; moduli {ms}')


def add_sub(ms, dt, tag):
  def inputs():
    return [residues(n, (2, 2, len(ms)), ms, dt) for n in 'ab']

  def call(a, b):
    return add.AddModularSubtract(ms).add(a, b)
  return Obl(f'AddModularSubtract {dt} {tag}', call, inputs,
             lambda i, o: canon('s', o[0], ms, J.map2(T.add, i[0].x, i[1].x)),
             encoded=[add.AddModularSubtract.add],
             bounds=f'every reduced operand pair; moduli {ms}')


def add_simple():
  return Obl('AddSimple', lambda a, b: add.AddSimple().add(a, b),
             lambda: [varr('a', (2, 2), U64, 0, 2**62),
                      varr('b', (2, 2), U64, 0, 2**62)],
             lambda i, o: [(f'{k}', smt.Eq(o[0].x[k], T.add(
                 i[0].x[k], i[1].x[k]))) for k in np.ndindex(2, 2)],
             encoded=[add.AddSimple.add], bounds='operands up to 2^62')


def mul_pt(ms, shape, barr, tag):
  dt = U32 if barr else U64

  def inputs():
    return [residues('c', (shape[0], shape[1], len(ms)), ms, dt),
            residues('p', (shape[1], len(ms)), ms, dt)]

  def call(c, p):
    m = np.array(ms, np.uint32)
    ct = ktypes.Ciphertext(c, m)
    pt = ktypes.Plaintext(p, m)
    k = (mul.MulPlaintextCiphertextBarrett(
        barrett.precompute_barrett_constants([int(x) for x in ms])) if barr
         else mul.MulPlaintextCiphertextSimple())
    r = k.mul(ct, pt)
    return r.data, jnp.asarray(r.moduli)

  def goals(ins, outs):
    g = [(f'modulus {i}', smt.Eq(outs[1].x[i], int(m)))
         for i, m in enumerate(ms)]
    c, p = ins
    if outs[0].shape != c.shape:
      return [('shape', smt.FALSE)]
    spec = J.map2(T.mul, c.x, np.broadcast_to(p.x, c.shape))
    if barr:
      return g + canon('p', outs[0], ms, spec)
    return g + [(f'p{i}', smt.Eq(outs[0].x[i], spec[i]))
                for i in np.ndindex(*c.shape)]
  return Obl(f'plaintext multiplication barrett={barr} {tag}', call, inputs,
             goals, chunk=2,
             encoded=[mul.MulPlaintextCiphertextBarrett.mul if barr else
                      mul.MulPlaintextCiphertextSimple.mul],
             bounds=f'every reduced operand; moduli {ms}')


def mismatch(cls_barr):
  """Operands over different moduli are refused, equal ones accepted."""
  st = {}
  A, B_ = [97, 193], [97, 257]

  def inputs(case):
    st['c'] = case
    return [residues('c', (2, 2, 2), [97, 97], U32),
            residues('p', (2, 2), [97, 97], U32)]

  def call(c, p):
    k = (mul.MulPlaintextCiphertextBarrett(
        barrett.precompute_barrett_constants(st['c'][0])) if cls_barr else
         mul.MulPlaintextCiphertextSimple())
    return k.mul(ktypes.Ciphertext(c, np.array(st['c'][0])),
                 ktypes.Plaintext(p, np.array(st['c'][1]))).data
  same = lambda: st['c'][0] == st['c'][1]
  return Obl(f'mismatched moduli barrett={cls_barr}', call, inputs,
             lambda i, o: [('accepted', smt.TRUE if same() else smt.FALSE)],
             on_raise=lambda i, e: [('refused', smt.FALSE if same()
                                     else smt.TRUE)],
             raises=(ValueError,), cases=[(A, A), (A, B_), (B_, A)],
             encoded=[mul.MulPlaintextCiphertextBase.mul], bounds='any data')


def obligations(tier):
  ms = moduli_list()
  obs = []
  for i in range(0, len(ms), 6):
    obs.append(reduction(ms[i:i + 6], U64, f'#{i}'))
    obs.append(reduction(ms[i:i + 6], U64, f'#{i}', True))
  small = [m for m in ms if m < 2**31]
  for i in range(0, len(small), 24):
    obs.append(reduction(small[i:i + 24][::4], U32, f'#{i}'))
  obs.append(single())
  sel = [[2147483489, 268435361, 12289], [1824726041, 97, 65537],
         [2147483647, 1073741825, 1073741823], [7, 5, 17]]
  for i, s in enumerate(sel):
    obs.append(add_barrett(s, U64, True, f'#{i}'))
    obs.append(add_barrett(s, U32, False, f'#{i}'))
    obs.append(add_barrett(s, U64, False, f'#{i}'))
    obs.append(add_sub(s, U32, f'#{i}'))
    obs.append(add_sub(s, U64, f'#{i}'))
    obs.append(mul_pt(s, (2, 2), True, f'#{i}'))
    obs.append(mul_pt(s, (2, 2), False, f'#{i}'))
  obs += [add_simple(), mismatch(True), mismatch(False)]
  return obs
