"""K03: negacyclic NTT."""
JOBS = 8
ASSUMPTIONS = [
    'Ring sizes and moduli are the listed ones; every input is covered.',
    'Barrett reduction inside the accelerator kernels is replaced by its '
    'contract (z mod m for z < 2^(31+bits of m), decided by K01); that every '
    'reduction input is in that range is proved here as a side goal.',
]

import jax
import jax.numpy as jnp
import numpy as np
from checks.ckks import *
from jaxite.jaxite_ckks import ntt, ntt_cpu
from jaxite.jaxite_ckks import math as ckks_math
from jv import pysym as P

PRIMES = [1073741441, 1073740609, 1073739937, 268435361, 2147483137]


def primes(n, bits, k):
  """k primes = 1 mod n below 2^bits."""
  out, p = [], ((1 << bits) // n) * n + 1
  while len(out) < k:
    p -= n
    if p < (1 << bits) and p > 2 and all(
        pow(a, p - 1, p) == 1 for a in (2, 3, 5, 7, 11, 13, 17) if a % p):
      if all(p % d for d in range(3, min(2000, int(p**.5) + 1), 2)):
        out.append(p)
  return out


def root(m, q):
  """Smallest primitive m-th root of unity mod q (m a power of two)."""
  x = 2
  while True:
    r = pow(x, (q - 1) // m, q)
    if m == 1 or pow(r, m // 2, q) == q - 1:
      break
    x += 1
  return min(pow(r, k, q) for k in range(1, m, 2)) if m > 1 else 1


def brv(i, n):
  b = n.bit_length() - 1
  return int(format(i, f'0{b}b')[::-1], 2) if b else 0


def evaluate(x, q):
  """x: list of N exact terms -> transform in bit-reversed order."""
  n = len(x)
  psi = root(2 * n, q)
  return [T.total([T.mul(x[j], pow(psi, j * (2 * brv(k, n) + 1), q))
                   for j in range(n)]) for k in range(n)]


def interpolate(x, q):
  n = len(x)
  psi = root(2 * n, q)
  inv, ninv = pow(psi, -1, q), pow(n, -1, q)
  return [T.total([T.mul(x[k], ninv * pow(inv, j * (2 * brv(k, n) + 1), q) % q)
                   for k in range(n)]) for j in range(n)]


def apply_flat(x, moduli, f):
  """f on each (..., R, C) block for each modulus."""
  out = np.empty(x.shape, object)
  r, c = x.shape[-3:-1]
  for lead in np.ndindex(*x.shape[:-3]):
    for m, q in enumerate(moduli):
      blk = f(list(x[lead][:, :, m].ravel()), q)
      for i, v in enumerate(blk):
        out[lead + (i // c, i % c, m)] = v
  return out


def kernel(ms, r, c):
  k = ntt.NTTBarrett()
  k.precompute_constants([int(m) for m in ms], r, c)
  return k


def one(direction, ms, r, c, lead, tag, tier=None):
  shape = lead + (r, c, len(ms))

  def call(v):
    k = kernel(ms, r, c)
    return k.ntt(v) if direction == 'ntt' else k.intt(v)

  def goals(ins, outs):
    if outs[0].shape != shape:
      return [('shape', smt.FALSE)]
    return canon('', outs[0], ms, apply_flat(
        ins[0].x, ms, evaluate if direction == 'ntt' else interpolate))
  return Obl(f'{direction} {r}x{c} {lead} {tag}', call,
             lambda: [residues('v', shape, ms)], goals, opaque=OPAQUE,
             encoded=[ntt.NTTBarrett.precompute_constants,
                      getattr(ntt.NTTBarrett, direction)],
             bounds=f'every reduced input of shape {shape}; moduli {ms}')


def unreduced(direction, ms, r, c, tag):
  """Inputs anywhere in 32 bits are treated as integers modulo q."""
  shape = (r, c, len(ms))

  def call(v):
    k = kernel(ms, r, c)
    return k.ntt(v) if direction == 'ntt' else k.intt(v)

  def goals(ins, outs):
    return canon('', outs[0], ms, apply_flat(
        ins[0].x, ms, evaluate if direction == 'ntt' else interpolate))
  return Obl(f'{direction} {r}x{c} unreduced {tag}', call,
             lambda: [varr('v', shape, U32, 0, 2**32 - 1)], goals,
             opaque=OPAQUE, encoded=[getattr(ntt.NTTBarrett, direction)],
             bounds=f'every 32-bit input of shape {shape}; moduli {ms}')


def roundtrip(ms, r, c, first):
  shape = (1, r, c, len(ms))

  def call(v):
    k = kernel(ms, r, c)
    return k.intt(k.ntt(v)) if first == 'ntt' else k.ntt(k.intt(v))
  return Obl(f'round trip from {first} {r}x{c} #{len(ms)}', call,
             lambda: [residues('v', shape, ms)],
             lambda i, o: [(f'{k}', smt.Eq(o[0].x[k], i[0].x[k]))
                           for k in np.ndindex(*shape)], opaque=OPAQUE,
             encoded=[ntt.NTTBarrett.ntt, ntt.NTTBarrett.intt],
             bounds=f'every reduced input of shape {shape}; moduli {ms}')


def convolution(ms, r, c):
  shape = (r, c, len(ms))
  n = r * c

  def call(a, b):
    k = kernel(ms, r, c)
    p = k.ntt(a).astype(jnp.uint64) * k.ntt(b).astype(jnp.uint64)
    p = barrett.modular_reduction(p, k.constants.barrett_constants)
    return k.intt(p)

  def goals(ins, outs):
    spec = np.empty(shape, object)
    for m in range(len(ms)):
      a, b = [list(x.x[:, :, m].ravel()) for x in ins]
      for k in range(n):
        spec[k // c, k % c, m] = T.total(
            [T.mul(T.mul(a[i], b[(k - i) % n]), 1 if i <= k else -1)
             for i in range(n)])
    return canon('', outs[0], ms, spec)
  return Obl(f'convolution {r}x{c}', call,
             lambda: [residues('a', shape, ms), residues('b', shape, ms)],
             goals, opaque=OPAQUE,
             encoded=[ntt.NTTBarrett.ntt, ntt.NTTBarrett.intt],
             bounds=f'every reduced pair; moduli {ms}')


def sliced(ms, r, c, sl):
  sub = ms[sl]
  shape = (r, c, len(sub))

  def call(v):
    k = kernel(ms, r, c)
    k2 = ntt.NTTBarrett()
    k2.constants = k.constants.slice_moduli(sl)
    return k2.ntt(v), k2.intt(v), jnp.asarray(k2.constants.moduli)

  def goals(ins, outs):
    if outs[2].shape != (len(sub),):
      return [('moduli', smt.FALSE)]
    return (canon('f', outs[0], sub, apply_flat(ins[0].x, sub, evaluate))
            + canon('i', outs[1], sub, apply_flat(ins[0].x, sub, interpolate))
            + [(f'modulus {i}', smt.Eq(outs[2].x[i], int(q)))
               for i, q in enumerate(sub)])
  return Obl(f'sliced constants {r}x{c} {sl}', call,
             lambda: [residues('v', shape, sub)], goals, opaque=OPAQUE,
             encoded=[ntt.NTTBarrettConstants.slice_moduli],
             bounds=f'every reduced input; moduli {ms}')


CPU = P.PyCtx(lambda: [ntt_cpu])


def cpu_poly(direction, n, ms, tag, unreduced=False):
  f = (ntt_cpu.ntt_negacyclic_poly if direction == 'ntt' else
       ntt_cpu.intt_negacyclic_poly)

  def inputs():
    if unreduced:
      return [P.pvar('v', (n, len(ms)), 0, 2**63 - 1)]
    return [P.pvar('v', (n, len(ms)), 0, [m - 1 for m in ms] * n)]

  def goals(ins, outs):
    if outs[0].shape != (n, len(ms)):
      return [('shape', smt.FALSE)]
    spec = apply_flat(ins[0].x.reshape(1, n, len(ms)), ms,
                      evaluate if direction == 'ntt' else interpolate)
    return canon('', outs[0], ms, spec.reshape(n, len(ms)))
  return Obl(f'reference {direction} N={n} {tag}',
             lambda v: f(P.arr(v, np.uint64), [int(m) for m in ms]),
             inputs, goals, mode='py', pyctx=CPU, encoded=[f],
             bounds=f'every input in range, N={n}; moduli {ms}')


def cpu_raw(kind, n, q, rev):
  """The list-level reference transforms with an explicit root."""
  psi0 = root(2 * n, q)
  psi = pow(psi0, rev, q)
  om = psi * psi % q
  fn = {'ntt': lambda v: ntt_cpu.ntt_negacyclic_bit_reverse(v, q, psi),
        'intt': lambda v: ntt_cpu.intt_negacyclic_bit_reverse(v, q, psi),
        'cyc': lambda v: ntt_cpu.ntt_cyclic_bit_reverse(v, q, om),
        'icyc': lambda v: ntt_cpu.intt_cyclic_bit_reverse(v, q, om)}[kind]

  def spec(x):
    if kind == 'ntt':
      return [T.total([T.mul(x[j], pow(psi, j * (2 * k + 1), q))
                       for j in range(n)]) for k in range(n)]
    if kind == 'cyc':
      return [T.total([T.mul(x[j], pow(om, j * k, q)) for j in range(n)])
              for k in range(n)]
    ni = pow(n, -1, q)
    if kind == 'intt':
      return [T.total([T.mul(x[k], ni * pow(psi, -j * (2 * k + 1), q) % q)
                       for k in range(n)]) for j in range(n)]
    return [T.total([T.mul(x[k], ni * pow(om, -j * k, q) % q)
                     for k in range(n)]) for j in range(n)]

  def goals(ins, outs):
    if len(outs) == n:
      outs = [P.PArr(obj((n,), [o.x[()] for o in outs]))]
    s = spec(list(ins[0].x))
    g = []
    for i in range(n):
      g.append((f'{i} value', smt.Cong(outs[0].x[i], s[i], q)))
      g.append((f'{i} range', smt.In(outs[0].x[i], 0, q - 1)))
    return g
  return Obl(f'reference {kind} N={n} q={q} root^{rev}',
             lambda v: fn(P.lst(v)),
             lambda: [P.pvar('v', (n,), 0, q - 1)], goals, mode='py',
             pyctx=CPU, encoded=[ntt_cpu.ntt_cyclic_bit_reverse,
                                 ntt_cpu.intt_cyclic_bit_reverse],
             bounds=f'every reduced input, N={n}, q={q}')


def obligations(tier):
  obs = []
  sizes = [(2, 2), (2, 4), (4, 2), (4, 4), (1, 4), (4, 1), (8, 4), (2, 8)]
  if tier == 'thorough':
    sizes += [(8, 8), (4, 16), (16, 16)]
  for r, c in sizes:
    n = r * c
    big = primes(2 * n, 30, 2) + primes(2 * n, 31, 1)
    for d in ('ntt', 'intt'):
      obs.append(one(d, big, r, c, (), 'big'))
      obs.append(one(d, primes(2 * n, 28, 1), r, c, (2,), 'one modulus'))
      obs.append(unreduced(d, primes(2 * n, 30, 1), r, c, ''))
    obs.append(roundtrip(big, r, c, 'ntt'))
    obs.append(roundtrip(big, r, c, 'intt'))
  obs.append(one('ntt', primes(16, 26, 2), 2, 4, (1, 2), 'lead'))
  obs += [one(d, [97, 193], 4, 4, (), 'small moduli') for d in ('ntt', 'intt')]
  obs += [one(d, [17, 97], 2, 4, (), 'tiny moduli') for d in ('ntt', 'intt')]
  obs.append(roundtrip([12289, 97, 40961], 4, 4, 'ntt'))
  for r, c in [(2, 2), (2, 4)] + ([(4, 4)] if tier == 'thorough' else []):
    obs.append(convolution(primes(2 * r * c, 30, 2), r, c))
  ns = [1, 2, 4, 8, 16, 32] + ([64, 128] if tier == 'thorough' else [])
  for n in ns:
    for d in ('ntt', 'intt'):
      obs.append(cpu_poly(d, n, primes(2 * n, 30, 2) + primes(2 * n, 31, 1),
                          'big'))
      if n <= 8:
        obs.append(cpu_poly(d, n, primes(2 * n, 30, 1), 'unreduced', True))
  for kind in ('ntt', 'intt', 'cyc', 'icyc'):
    for n in (2, 4, 8, 16):
      obs.append(cpu_raw(kind, n, primes(2 * n, 30, 1)[0], 1))
    obs.append(cpu_raw(kind, 8, 97 if kind else 0, 3))
    obs.append(cpu_raw(kind, 8, primes(16, 60, 1)[0], 5))
  p3 = primes(8, 30, 3)
  obs += [sliced(p3, 2, 2, slice(0, 2)), sliced(p3, 2, 2, slice(1, None)),
          sliced(p3, 2, 2, slice(None, -1))]
  return obs
