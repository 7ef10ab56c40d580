"""C08: sample extraction and LWE key switching."""
JOBS = 8
ASSUMPTIONS = [
    'Key switching is decided with noise-free keys and all digits kept '
    '(exact), with truncated digits (bounded drift), and its response to '
    'key noise is bounded through additivity and unit responses.',
]

import jax
import jax.numpy as jnp
import numpy as np
from checks import common
common.cggi()
from jaxite.jaxite_cggi import bootstrap, key_switch, lwe, rlwe
from checks.c03 import rkey
from checks.c06 import dpar, rct
from checks.c07 import lkey
from jv import jaxsym as J
from jv import smt, terms as T
from jv.harness import Arr, Obl, const, obj, varr

U = 'uint32'


def extract(k, n, tier='quick'):
  def inputs():
    return [varr('c', (k + 1, n), U), varr('s', (k, n), U, 0, 1)]

  def call(c, s):
    ct = bootstrap.sample_extract(rct(n, c))
    key = rlwe.flatten_key(rkey(k, n, s))
    return ct, lwe.decrypt_without_denoising(ct, key), key.key_data

  def goals(ins, outs):
    if outs[0].shape != (k * n + 1,):
      return [('shape', smt.FALSE)]
    ph = common.raw_rlwe_phase(ins[0].r, ins[1].r)
    return [('phase', smt.Cong(common.raw_phase(outs[0].r, outs[2].r), ph[0],
                               1 << 32)),
            ('decrypted', smt.Cong(outs[1].r.item(), ph[0], 1 << 32))]
  return Obl(f'sample extract k={k} N={n}', call, inputs, goals,
             encoded=[bootstrap.sample_extract, bootstrap.jit_sample_extract,
                      rlwe.flatten_key],
             bounds='every ciphertext, every binary key', tier=tier)


def reqs(n, d, L, lb):
  return common.prg_requests(('ksk', n, d, L, lb), lambda p: key_switch.gen_key(
      dpar(L, lb), p, lkey(n, jnp.zeros(n, jnp.uint32)),
      lkey(d, jnp.zeros(d, jnp.uint32))))


def ksk(n, d, L, lb, tier='quick'):
  B = 1 << 16

  def inputs():
    return [varr('z', (n,), U, 0, 1), varr('s', (d,), U, 0, 1)
            ] + common.prg_inputs(reqs(n, d, L, lb), B)

  def call(z, s, *rnd):
    key = key_switch.gen_key(dpar(L, lb), common.Prg(rnd), lkey(n, z),
                             lkey(d, s))
    return key.key_data, jnp.array(
        [key.lwe_dimension, key.decomposition_log_base,
         key.decomposition_level_count], jnp.uint32)

  def goals(ins, outs):
    kd = outs[0]
    if kd.shape != (n, L, d + 1):
      return [('shape', smt.FALSE)]
    g = [('meta', smt.And(smt.Eq(outs[1].x[0], d), smt.Eq(outs[1].x[1], lb),
                          smt.Eq(outs[1].x[2], L)))]
    for i in range(n):
      for l in range(L):
        g.append((f'{i},{l}', common.near(
            common.raw_phase(kd.r[i][l], ins[1].r),
            common.rmul(ins[0].r[i], 1 << (32 - lb * (l + 1))), B)))
    return g
  return Obl(f'key switching key {n}->{d} L={L} logB={lb}', call, inputs,
             goals, encoded=[key_switch.gen_key],
             bounds='every pair of binary keys, mask; noise up to 2^16',
             tier=tier)


def full_rnd(n, d, L, lb, rnd):
  rnd = list(rnd)
  return [jnp.zeros(sh, dt) if kind == 'normal' else rnd.pop(0)
          for kind, sh, dt in reqs(n, d, L, lb)]


def switch_exact(n, d, L, lb, tier='quick'):
  def inputs():
    return [varr('c', (n + 1,), U, chunk=lb), varr('z', (n,), U, 0, 1),
            varr('s', (d,), U, 0, 1)] + [
                varr(f'u{i}_', sh, dt) for i, (kind, sh, dt) in enumerate(
                    reqs(n, d, L, lb)) if kind != 'normal']

  def call(c, z, s, *rnd):
    key = key_switch.gen_key(dpar(L, lb), common.Prg(
        full_rnd(n, d, L, lb, rnd)), lkey(n, z), lkey(d, s))
    return key_switch.switch_key(key, c)

  def goals(ins, outs):
    if outs[0].shape != (d + 1,):
      return [('shape', smt.FALSE)]
    return [('phase', smt.Cong(common.raw_phase(outs[0].r, ins[2].r),
                               common.raw_phase(ins[0].r, ins[1].r),
                               1 << 32))]
  return Obl(f'key switch exact {n}->{d} L={L} logB={lb}', call, inputs,
             goals, encoded=[key_switch.gen_key, key_switch.switch_key,
                             key_switch.jit_switch_key],
             bounds='every ciphertext, keys, masks', tier=tier)


def switch_trunc(n, d, L, lb, tier='quick'):
  t = 32 // lb - L
  R = (1 << (lb - 1)) * ((1 << (lb * t)) - 1) // ((1 << lb) - 1)
  st = {}

  def inputs(case):
    st['z'] = case
    return [varr('c', (n + 1,), U, chunk=lb),
            const(np.array(case, np.uint32))]

  def call(c, z):
    key = key_switch.gen_key(dpar(L, lb), common.Prg(), lkey(n, z),
                             lkey(d, jnp.ones(d, jnp.uint32)))
    return key_switch.switch_key(key, c)

  def goals(ins, outs):
    a = common.raw_phase(outs[0].r, [1] * d)
    b = common.raw_phase(ins[0].r, st['z'])
    return [('drift', common.near(a, b, R * sum(st['z'])))]
  cases = [tuple(int(v) for v in z) for z in np.ndindex(*([2] * n))]
  return Obl(f'key switch truncated {n}->{d} L={L} logB={lb}', call, inputs,
             goals, cases=cases, share=True, samples=1,
             encoded=[key_switch.switch_key],
             bounds=f'{L} of {32 // lb} digits; every ciphertext; all '
             f'{len(cases)} binary input keys', tier=tier)


def mkkey(n, d, L, lb, data):
  return key_switch.LweKeySwitchingKey(
      modulus=jnp.uint32(0), lwe_dimension=d, decomposition_log_base=lb,
      decomposition_level_count=L, lwe_size=d + 1, key_data=data)


def additive(n, d, L, lb, tier='quick'):
  def inputs():
    return [varr('c', (n + 1,), U, chunk=lb), varr('g', (n, L, d + 1), U),
            varr('h', (n, L, d + 1), U)]

  def call(c, g, h):
    f = lambda z: key_switch.switch_key(mkkey(n, d, L, lb, z), c)
    return f(g), f(h), f(g + h), f(g * 0)

  def goals(ins, outs):
    a, b, ab, z = [o.r for o in outs]
    return [(f'{i}', smt.Cong(common.radd(a[i], b[i]),
                              common.radd(ab[i], z[i]), 1 << 32))
            for i in range(d + 1)] + [
                (f'zero{i}', smt.Cong(z[i], 0 if i < d else ins[0].r[-1],
                                      1 << 32)) for i in range(d + 1)]
  return Obl(f'key switch additive {n}->{d} L={L} logB={lb}', call, inputs,
             goals, encoded=[key_switch.switch_key], bounds='all words',
             tier=tier)


def response(n, d, L, lb, tier='quick'):
  st = {}

  def inputs(case):
    st['p'] = case
    k = np.zeros((n, L, d + 1), np.uint32)
    k[case] = 1
    return [varr('c', (n + 1,), U, chunk=lb), const(k)]

  def call(c, k):
    return key_switch.switch_key(mkkey(n, d, L, lb, k), c)

  def goals(ins, outs):
    col = st['p'][2]
    return [(f'{i}', common.near(
        outs[0].r[i], ins[0].r[-1] if i == d else 0,
        (1 << (lb - 1)) if i == col else 0)) for i in range(d + 1)]
  cases = [tuple(int(v) for v in p) for p in np.ndindex(n, L, d + 1)]
  return Obl(f'key switch noise response {n}->{d} L={L} logB={lb}', call,
             inputs, goals, cases=cases, share=True, samples=1,
             encoded=[key_switch.switch_key],
             bounds='each key word in turn; every ciphertext', tier=tier)


def obligations(tier):
  obs = [extract(k, n) for k, n in ((1, 2), (1, 8), (2, 4), (3, 4), (1, 32))]
  obs += [ksk(2, 3, 4, 8), ksk(4, 2, 5, 4), ksk(3, 4, 2, 6), ksk(8, 2, 1, 4)]
  obs += [switch_exact(2, 2, 4, 8), switch_exact(4, 3, 8, 4),
          switch_exact(3, 2, 2, 16), switch_exact(1, 4, 16, 2)]
  obs += [switch_trunc(3, 2, 5, 4), switch_trunc(4, 1, 6, 4),
          switch_trunc(2, 2, 2, 8), switch_trunc(2, 1, 5, 2)]
  obs += [additive(3, 2, 5, 4), additive(2, 4, 4, 8)]
  obs += [response(3, 2, 5, 4), response(2, 2, 3, 8), response(2, 1, 5, 2)]
  obs += [extract(3, 64, 'thorough'), extract(1, 256, 'thorough'),
          ksk(16, 8, 5, 4, 'thorough'), switch_exact(8, 8, 8, 4, 'thorough'),
          switch_trunc(6, 2, 5, 4, 'thorough'),
          response(4, 4, 5, 4, 'thorough')]
  return obs
