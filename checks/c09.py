"""C09: lookup tables through bootstrapping."""
JOBS = 8
ASSUMPTIONS = [
    'Bootstrapping is decided with noise-free keys and all digits kept; the '
    'rounding of each input word is split into all residue cases listed.',
]

import itertools
import jax
import jax.numpy as jnp
import numpy as np
from checks import common
common.cggi()
from jaxite.jaxite_cggi import bootstrap, encoding, key_switch, lwe
from jaxite.jaxite_cggi import parameters, rlwe, test_polynomial
from jaxite.jaxite_cggi import types as ctypes
from checks.c06 import dpar, rct
from checks.c07 import ideal_bsk, raw_mono, split, lkey
from jv import jaxsym as J
from jv import smt, terms as T
from jv.harness import Arr, Obl, SymInt, const, obj, varr

U = 'uint32'
PATCH = [(encoding, 'int', SymInt), (ctypes, 'LweCleartext', SymInt)]


def sp(d, n, k):
  return parameters.SchemeParameters(
      lwe_dimension=d, plaintext_modulus=2**32, rlwe_dimension=k,
      polynomial_modulus_degree=n)


def tpoly(msg, pad, n, k=1, wide=False, tier='quick'):
  ep = encoding.EncodingParameters(total_bit_length=32,
                                   message_bit_length=msg,
                                   padding_bit_length=pad)
  hi = (1 << (msg + (pad if wide else 0))) - 1

  def inputs():
    return [varr('f', (1 << msg,), U, 0, hi)]

  def call(f):
    p = test_polynomial.gen_test_polynomial(f, ep, sp(2, n, k))
    c = test_polynomial.gen_and_encrypt(f, ep, sp(2, n, k))
    return p.message, c.message

  def goals(ins, outs):
    p, c = outs
    if p.shape != (n,) or c.shape != (k + 1, n):
      return [('shape', smt.FALSE)]
    g = [(f'trivial{j},{i}', smt.Eq(c.x[j][i], 0 if j < k else p.x[i]))
         for j in range(k + 1) for i in range(n)]
    w = n >> msg
    for m in range(1 << msg):
      for d in range(-(w // 2), w - w // 2):
        v = raw_mono(list(p.r), -(m * w + d))[0]
        g.append((f'f({m}) at offset {d}', smt.Cong(
            v, T.mul(ins[0].x[m], 1 << (32 - msg - pad)), 1 << 32)))
    return g
  return Obl(f'test polynomial msg={msg} pad={pad} N={n} k={k} wide={wide}',
             call, inputs, goals, patches=PATCH,
             encoded=[test_polynomial.gen_test_polynomial,
                      test_polynomial.trivial_encryption,
                      test_polynomial.gen_and_encrypt],
             bounds='every table; every message; every index offset inside '
             'its block', tier=tier)


def tpoly_len(tier='quick'):
  st = {}

  def inputs(case):
    st['c'] = case
    return [varr('f', (case[0],), U, 0, 1)]

  def call(f):
    _, msg, n = st['c']
    ep = encoding.EncodingParameters(total_bit_length=32,
                                     message_bit_length=msg,
                                     padding_bit_length=1)
    return test_polynomial.gen_test_polynomial(f, ep, sp(2, n, 1)).message

  def ok():
    l, msg, n = st['c']
    return l == 1 << msg and l <= n
  return Obl('test polynomial table length', call, inputs,
             lambda ins, outs: [('ok', smt.TRUE if ok() else smt.FALSE)],
             on_raise=lambda ins, e: [('bad', smt.FALSE if ok()
                                       else smt.TRUE)],
             raises=(ValueError,), patches=PATCH,
             cases=[(l, m, n) for l in (1, 2, 3, 4, 8) for m in (1, 2, 3)
                    for n in (2, 4, 8)],
             encoded=[test_polynomial.gen_test_polynomial],
             bounds='table lengths 1..8, 1..3 message bits')


def identity(msg, pad, n):
  ep = encoding.EncodingParameters(total_bit_length=32,
                                   message_bit_length=msg,
                                   padding_bit_length=pad)

  def inputs():
    return [varr('i', (), U, 0, 2 * n - 1)]

  def call(i):
    p = test_polynomial.identity_test_polynomial(ep, sp(2, n, 1)).message
    from jaxite.jaxite_cggi import matrix_utils
    q = jnp.concatenate([p, 0 - p])
    return q[i]

  def goals(ins, outs):
    # index i (mod 2N), centred: message = round(i / w), valid when < 2^msg
    w = n >> msg
    i = ins[0].x.item()
    m = T.floordiv(T.add(i, w // 2), w)
    ok = smt.Le(m, (1 << msg) - 1)
    wrap = smt.Ge(i, 2 * n - w // 2)
    return [('identity', smt.And(
        smt.Implies(ok, smt.Cong(outs[0].r.item(), T.mul(
            m, 1 << (32 - msg - pad)), 1 << 32)),
        smt.Implies(wrap, smt.Cong(outs[0].r.item(), 0, 1 << 32))))]
  return Obl(f'identity test polynomial msg={msg} pad={pad} N={n}', call,
             inputs, goals, patches=PATCH,
             encoded=[test_polynomial.identity_test_polynomial],
             bounds='every index')


def ideal_ksk(L, lb, s, d):
  """Noise-free, mask-free key switching key for input key s."""
  sc = jnp.asarray(np.array([1 << (32 - lb * (l + 1)) for l in range(L)],
                            np.uint32))
  body = s[:, None] * sc[None]
  return jnp.concatenate([jnp.zeros(body.shape + (d,), jnp.uint32),
                          body[..., None]], axis=-1)


def boot(d, k, n, L, lb, kL, klb, bmmp, cases, jit, tier='quick', tag=''):
  """phase_z(bootstrap(ct)) = phase_s(X^-J * tp)[0], J the rounded phase."""
  lg = (2 * n).bit_length() - 1
  unit = 1 << (32 - lg)
  par = sp(d, n, k)
  st = {}

  def inputs(case):
    st['c'] = case
    half = unit >> 1
    # half rounding cells: word = h * unit/2 + rest, rounds to (h+1)//2
    ct = [T.add(T.var(f'd{i}', 0, half - 1), h * half)
          for i, h in enumerate(case)]
    st['c'] = [(h + 1) // 2 for h in case]
    return [Arr(obj((d + 1,), ct), U), varr('z', (d,), U, 0, 1),
            varr('t', (k + 1, n), U), varr('s', (k * n,), U, 0, 1)]

  def call(ct, z, t, s):
    bsk = ideal_bsk(k, n, L, lb, bmmp, z)
    kd = ideal_ksk(kL, klb, s, d)
    if jit:
      return bootstrap.jit_bootstrap(
          ct, t, bsk.encrypted_lwe_sk_bits, kd, dpar(kL, klb), dpar(L, lb),
          par, bmmp, False)
    ksk = key_switch.LweKeySwitchingKey(
        modulus=jnp.uint32(0), lwe_dimension=d, decomposition_log_base=klb,
        decomposition_level_count=kL, lwe_size=d + 1, key_data=kd)
    return bootstrap.bootstrap(ct, rct(n, t), bsk, ksk, dpar(kL, klb),
                               dpar(L, lb), par)

  def goals(ins, outs):
    if outs[0].shape != (d + 1,):
      return [('shape', smt.FALSE)]
    z = list(ins[1].x)
    s = ins[3].r.reshape(k, n)
    ph = common.raw_rlwe_phase(ins[2].r, s)
    *a, b = st['c']
    want = 0
    for zb in itertools.product((0, 1), repeat=d):
      w = 1
      for t_, v in zip(zb, z):
        w = T.mul(w, v if t_ else T.sub(1, v))
      e = -b + sum(x * y for x, y in zip(a, zb))
      want = common.radd(want, common.rmul(w, raw_mono(ph, e)[0]))
    return [('phase', smt.Cong(common.raw_phase(outs[0].r, z), want,
                               1 << 32))]
  return Obl(f'{"jit_" if jit else ""}bootstrap {tag}n={d} k={k} N={n} L={L} '
             f'bmmp={bmmp}', call, inputs, goals, cases=cases, share=True,
             samples=1, encoded=[bootstrap.jit_bootstrap if jit else
                                 bootstrap.bootstrap],
             bounds=f'{len(cases)} residue cases of the input words, every '
             'rounding remainder, every LWE key, ring key and test ciphertext',
             tier=tier)


def cells(d, n, count=None, seed=0):
  if count is None:
    return list(itertools.product(range(4 * n), repeat=d + 1))
  rng = np.random.default_rng(seed)
  return [tuple(int(v) for v in rng.integers(0, 4 * n, d + 1))
          for _ in range(count)]


def obligations(tier):
  obs = [tpoly(1, 1, 4), tpoly(2, 1, 8), tpoly(3, 1, 32), tpoly(3, 2, 8),
         tpoly(2, 3, 16, 3), tpoly(3, 1, 16, wide=True),
         tpoly(1, 2, 32, wide=True), tpoly(4, 1, 64), tpoly_len(),
         identity(1, 1, 8), identity(2, 1, 16), identity(3, 1, 64),
         identity(3, 1, 512)]
  for i, cs in enumerate(split(cells(2, 2), 8)):
    obs.append(boot(2, 1, 2, 2, 16, 4, 8, i % 2 == 0, cs, False,
                    tag=f'#{i} '))
    obs.append(boot(2, 1, 2, 2, 16, 4, 8, i % 2 == 1, cs, True,
                    tag=f'#{i} '))
  obs.append(boot(2, 1, 4, 4, 8, 8, 4, True, cells(2, 4, 10, 1), True))
  obs.append(boot(2, 1, 4, 4, 8, 8, 4, False, cells(2, 4, 10, 2), False))
  obs.append(boot(2, 2, 2, 2, 16, 2, 16, True, cells(2, 2, 10, 3), False))
  obs.append(boot(4, 1, 2, 2, 16, 2, 16, True, cells(4, 2, 6, 4), True))
  obs += [tpoly(3, 1, 512, tier='thorough'), tpoly(4, 2, 256, 3,
                                                   tier='thorough')]
  for i, cs in enumerate(split(cells(2, 4), 64)):
    obs.append(boot(2, 1, 4, 4, 8, 8, 4, i % 2 == 0, cs, i % 4 < 2,
                    'thorough', tag=f'all N4 #{i} '))
  return obs
