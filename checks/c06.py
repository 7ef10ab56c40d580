"""C06: external product and controlled multiplexer."""
JOBS = 8
ASSUMPTIONS = [
    'Gadget ciphertexts come from the library itself, with masks, key and '
    'message symbolic; the noise contribution is bounded through additivity '
    'in the gadget ciphertext and the response to one noisy coefficient.',
]

import jax.numpy as jnp
import numpy as np
from checks import common
common.cggi()
from jaxite.jaxite_cggi import bootstrap, decomposition, rgsw, rlwe
from checks.c03 import gsw_reqs, rkey
from jv import jaxsym as J
from jv import smt, terms as T
from jv.harness import Arr, Obl, obj, varr

U = 'uint32'


def rct(n, msg):
  return rlwe.RlweCiphertext(log_coefficient_modulus=32, modulus_degree=n,
                             message=msg)


def gct(n, msg):
  return rgsw.RgswCiphertext(log_coefficient_modulus=32, modulus_degree=n,
                             message=msg)


def dpar(L, lb):
  return decomposition.DecompositionParameters(log_base=lb, level_count=L)


def scale(m, ph):
  return [common.rmul(m, p) for p in ph]


def noise_inputs(k, n, L, lb):
  """Masks symbolic, noise zero."""
  out = []
  for i, (kind, shape, d) in enumerate(gsw_reqs(k, n, L, lb)):
    if kind == 'normal':
      continue
    out.append(varr(f'u{i}_', shape, d))
  return out


def full_rnd(k, n, L, lb, rnd):
  rnd = list(rnd)
  out = []
  for kind, shape, d in gsw_reqs(k, n, L, lb):
    out.append(jnp.zeros(shape, d) if kind == 'normal' else rnd.pop(0))
  return out


def encrypt(k, n, L, lb, m, s, rnd):
  return rgsw.encrypt(
      rgsw.RgswPlaintext(modulus_degree=n, message=m),
      rgsw.RgswSecretKey(rkey(k, n, s)), dpar(L, lb),
      common.Prg(full_rnd(k, n, L, lb, rnd)))


def ext_exact(k, n, L, lb, mhi=1, tier='quick'):
  """No noise, full decomposition: phase(out) = m * phase(in) exactly."""
  def inputs():
    return [varr('c', (k + 1, n), U, chunk=lb), varr('m', (), U, 0, mhi),
            varr('s', (k, n), U, 0, 1)] + noise_inputs(k, n, L, lb)

  def call(c, m, s, *rnd):
    return bootstrap.external_product(
        encrypt(k, n, L, lb, m, s, rnd), rct(n, c), dpar(L, lb)).message

  def goals(ins, outs):
    if outs[0].shape != (k + 1, n):
      return [('shape', smt.FALSE)]
    a = common.raw_rlwe_phase(outs[0].r, ins[2].r)
    b = scale(ins[1].r.item(), common.raw_rlwe_phase(ins[0].r, ins[2].r))
    return [(f'phase{i}', smt.Cong(a[i], b[i], 1 << 32)) for i in range(n)]
  return Obl(f'external product exact k={k} N={n} L={L} logB={lb} m<={mhi}',
             call, inputs, goals,
             encoded=[bootstrap.external_product,
                      bootstrap.jit_external_product],
             bounds=f'k={k} N={n}, all {L} digits of base 2^{lb}; every '
             'ciphertext, message, binary key and mask', tier=tier)


def ext_trunc(k, n, L, lb, tier='quick'):
  """Truncated digits: the drift is bounded, for every binary key."""
  t = 32 // lb - L
  R = (1 << (lb - 1)) * ((1 << (lb * t)) - 1) // ((1 << lb) - 1)
  st = {}

  def inputs(case):
    st['m'], st['s'] = case
    return [varr('c', (k + 1, n), U, chunk=lb)]

  def call(c):
    s = jnp.asarray(np.array(st['s'], np.uint32).reshape(k, n))
    g = rgsw.encrypt(
        rgsw.RgswPlaintext(modulus_degree=n, message=jnp.uint32(st['m'])),
        rgsw.RgswSecretKey(rkey(k, n, s)), dpar(L, lb), common.Prg())
    return bootstrap.external_product(g, rct(n, c), dpar(L, lb)).message

  def goals(ins, outs):
    s = np.array(st['s'], object).reshape(k, n)
    a = common.raw_rlwe_phase(outs[0].r, s)
    b = scale(st['m'], common.raw_rlwe_phase(ins[0].r, s))
    bound = R * (1 + sum(st['s']))
    return [(f'drift{i}', common.near(a[i], b[i], bound)) for i in range(n)]
  keys = list(np.ndindex(*([2] * (k * n))))
  cases = [(m, tuple(int(v) for v in s)) for m in (0, 1) for s in keys]
  return Obl(f'external product truncated k={k} N={n} L={L} logB={lb}', call,
             inputs, goals, cases=cases, chunk=1,
             encoded=[bootstrap.external_product],
             bounds=f'k={k} N={n}, {L} of {32 // lb} digits; every ciphertext '
             f'for each bit and each of the {len(keys)} binary keys',
             tier=tier)


def additive(k, n, L, lb, tier='quick'):
  sh = (L * (k + 1), k + 1, n)

  def inputs():
    return [varr('c', (k + 1, n), U, chunk=lb), varr('g', sh, U),
            varr('h', sh, U)]

  def call(c, g, h):
    f = lambda z: bootstrap.external_product(gct(n, z), rct(n, c),
                                             dpar(L, lb)).message
    return f(g), f(h), f(g + h)

  def goals(ins, outs):
    a, b, ab = [o.r.ravel() for o in outs]
    return [(f'{i}', smt.Cong(common.radd(a[i], b[i]), ab[i], 1 << 32))
            for i in range((k + 1) * n)]
  return Obl(f'external product additive k={k} N={n} L={L} logB={lb}', call,
             inputs, goals, encoded=[bootstrap.external_product],
             bounds=f'k={k} N={n} L={L}; all words', tier=tier)


def response(k, n, L, lb, tier='quick'):
  """One unit of noise in one coefficient moves outputs by at most B/2."""
  sh = (L * (k + 1), k + 1, n)
  st = {}

  def inputs(case):
    st['p'] = case
    return [varr('c', (k + 1, n), U, chunk=lb)]

  def call(c):
    g = np.zeros(sh, np.uint32)
    g[st['p']] = 1
    return bootstrap.external_product(gct(n, jnp.asarray(g)), rct(n, c),
                                      dpar(L, lb)).message

  def goals(ins, outs):
    col = st['p'][1]
    g = []
    for r in range(k + 1):
      for i in range(n):
        g.append((f'{r},{i}', common.near(
            outs[0].r[r][i], 0, (1 << (lb - 1)) if r == col else 0)))
    return g
  cases = [tuple(int(v) for v in p) for p in np.ndindex(*sh)]
  return Obl(f'external product noise response k={k} N={n} L={L} logB={lb}',
             call, inputs, goals, cases=cases, chunk=4,
             encoded=[bootstrap.external_product],
             bounds='each gadget coefficient in turn; every ciphertext',
             tier=tier)


def cmux(k, n, L, lb, tier='quick'):
  """CMUX selects: phase(out) = phase(c0) or phase(c1)."""
  def inputs():
    return [varr('x', (k + 1, n), U), varr('y', (k + 1, n), U),
            varr('m', (), U, 0, 1), varr('s', (k, n), U, 0, 1)
            ] + noise_inputs(k, n, L, lb)

  def call(x, y, m, s, *rnd):
    return bootstrap.cmux(encrypt(k, n, L, lb, m, s, rnd), rct(n, x),
                          rct(n, y), dpar(L, lb)).message

  def goals(ins, outs):
    a = common.raw_rlwe_phase(outs[0].r, ins[3].r)
    p0 = common.raw_rlwe_phase(ins[0].r, ins[3].r)
    p1 = common.raw_rlwe_phase(ins[1].r, ins[3].r)
    m = ins[2].r.item()
    return [(f'phase{i}', smt.Cong(a[i], common.radd(p0[i], common.rmul(
        m, common.rsub(p1[i], p0[i]))), 1 << 32)) for i in range(n)]
  return Obl(f'cmux k={k} N={n} L={L} logB={lb}', call, inputs, goals,
             encoded=[bootstrap.cmux, bootstrap.jit_cmux],
             bounds='every pair of ciphertexts, bit, binary key, mask; no '
             'noise, all digits', tier=tier)


def cmux_params():
  """Mismatched parameters are rejected."""
  def inputs(case):
    cmux_params.c = case
    return [varr('x', (2, 2), U)]

  def call(x):
    a, b, da, db = cmux_params.c
    mk = lambda lq, d: rlwe.RlweCiphertext(
        log_coefficient_modulus=jnp.uint32(lq), modulus_degree=d, message=x)
    with jax.ensure_compile_time_eval():
      return bootstrap.cmux(gct(2, jnp.zeros((8, 2, 2), jnp.uint32)),
                            mk(a, da), mk(b, db), dpar(4, 8)).message

  def goals(ins, outs):
    a, b, da, db = cmux_params.c
    return [('accepted', smt.TRUE if a == b and da == db else smt.FALSE)]

  def on_raise(ins, exc):
    a, b, da, db = cmux_params.c
    return [('rejected', smt.FALSE if a == b and da == db else smt.TRUE)]
  return Obl('cmux parameter mismatch', call, inputs, goals,
             raises=(ValueError,), on_raise=on_raise,
             cases=[(30, 30, 2, 2), (30, 31, 2, 2), (31, 30, 2, 2),
                    (30, 30, 2, 4)],
             encoded=[bootstrap.cmux], bounds='modulus/degree mismatches')


import jax


def obligations(tier):
  obs = [ext_exact(1, 2, 4, 8), ext_exact(1, 4, 4, 8), ext_exact(2, 2, 2, 16),
         ext_exact(1, 2, 8, 4), ext_exact(1, 2, 4, 8, mhi=255),
         ext_exact(3, 2, 2, 16)]
  obs += [ext_trunc(1, 2, 6, 4), ext_trunc(1, 2, 5, 4), ext_trunc(2, 2, 3, 8),
          ext_trunc(1, 4, 2, 8)]
  obs += [additive(1, 4, 4, 8), additive(1, 2, 6, 4), additive(3, 2, 6, 4),
          additive(2, 4, 2, 8)]
  obs += [response(1, 2, 4, 8), response(1, 4, 6, 4), response(3, 2, 6, 4)]
  obs += [cmux(1, 2, 4, 8), cmux(1, 4, 4, 8), cmux(2, 2, 2, 16),
          cmux(1, 2, 8, 4), cmux_params()]
  obs += [ext_exact(1, 8, 4, 8, tier='thorough'),
          ext_exact(3, 4, 4, 8, tier='thorough'),
          cmux(3, 4, 4, 8, 'thorough'), additive(1, 16, 6, 4, 'thorough'),
          response(1, 16, 6, 4, 'thorough')]
  return obs
