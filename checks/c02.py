"""C02: LWE encryption, decryption and modulus switching."""
JOBS = 8
ASSUMPTIONS = [
    'The random source returns uniform words, binary key entries and noise '
    'bounded by the stated bound; its distribution is not examined.',
]

import jax.numpy as jnp
import numpy as np
from checks import common
common.cggi()
from jaxite.jaxite_cggi import encoding, lwe, matrix_utils, parameters
from jv import jaxsym as J
from jv import smt, terms as T
from jv.harness import Arr, Obl, obj, varr

U = 'uint32'


def key(n, logq, data):
  return lwe.LweSecretKey(log_modulus=logq, lwe_dimension=n, key_data=data)


def enc(n, logq, tier='quick', noise=None):
  """Phase of a fresh encryption is plaintext + noise."""
  noise = noise if noise is not None else (1 << (logq - 2))
  cx = {}

  def run(pt, s, *rnd):
    return lwe.encrypt(pt, key(n, logq, s), common.Prg(rnd))

  reqs = lambda: common.prg_requests(
      ('c02', n, logq), lambda p: lwe.encrypt(
          jnp.uint32(0), key(n, logq, jnp.zeros(n, jnp.uint32)), p))

  def inputs():
    return [varr('m', (), U, 0, (1 << logq) - 1), varr('s', (n,), U, 0, 1)
            ] + common.prg_inputs(reqs(), noise)

  def call(pt, s, *rnd):
    ct = run(pt, s, *rnd)
    return ct, lwe.decrypt_without_denoising(ct, key(n, logq, s))

  def goals(ins, outs):
    ct, ph = outs
    want = ins[0].r.item()
    for a, r in zip(ins[2:], reqs()):
      if r[0] == 'normal':
        for v in a.r.ravel():
          want = J.m_addsub(want, v, U, 1)
    g = [('shape', smt.TRUE if ct.shape == (n + 1,) else smt.FALSE)]
    g.append(('phase of ciphertext', smt.Cong(
        common.raw_phase(ct.r, ins[1].r), want, 1 << logq)))
    g.append(('decryption', smt.Cong(ph.r.reshape(-1)[0], want, 1 << logq)))
    if logq < 32:
      g.append(('reduced', smt.And(
          smt.Le(ph.x.reshape(-1)[0], (1 << logq) - 1),
          smt.Le(ct.x[-1], (1 << logq) - 1))))
    return g
  return Obl(f'encrypt/decrypt n={n} logq={logq}', call, inputs, goals,
             encoded=[lwe.encrypt, lwe.jit_encrypt,
                      lwe.decrypt_without_denoising],
             bounds=f'dimension {n}, modulus 2^{logq}, every plaintext, every '
             'binary key, every mask, every noise up to a quarter modulus',
             tier=tier)


def end_to_end(n, logq, msg, pad, tier='quick'):
  """decode(decrypt(encrypt(encode(m)))) == m for noise in the cell."""
  ep = encoding.EncodingParameters(total_bit_length=logq,
                                   message_bit_length=msg,
                                   padding_bit_length=pad)
  err = logq - msg - pad
  st = {}
  reqs = lambda: common.prg_requests(
      ('c02', n, logq), lambda p: lwe.encrypt(
          jnp.uint32(0), key(n, logq, jnp.zeros(n, jnp.uint32)), p))

  def inputs():
    return [varr('m', (), U, 0, (1 << msg) - 1), varr('s', (n,), U, 0, 1)
            ] + common.prg_inputs(reqs(), (1 << (err - 1)) - 1)

  def call(m, s, *rnd):
    k = key(n, logq, s)
    ct = lwe.encrypt(m << err, k, common.Prg(rnd))
    return lwe.decrypt(ct, k, ep)

  def goals(ins, outs):
    return [('message', smt.Eq(T.floordiv(T.mod(
        outs[0].x.reshape(-1)[0], 1 << logq), 1 << err), ins[0].x.item())),
            ('no noise left', smt.Cong(outs[0].r.reshape(-1)[0], 0,
                                       1 << err))]
  return Obl(f'noise removal n={n} logq={logq} msg={msg} pad={pad}', call,
             inputs, goals, encoded=[lwe.decrypt, encoding.remove_noise],
             bounds='every message, key, mask; every noise below half a cell',
             tier=tier)


def embedding(n):
  def inputs():
    return [varr('m', (), U), varr('s', (n,), U)]

  def call(m, s):
    ct = lwe.noiseless_embedding(m, n)
    return ct, lwe.decrypt_without_denoising(ct, key(n, 32, s))

  def goals(ins, outs):
    g = [('value', smt.Cong(outs[1].r.reshape(-1)[0], ins[0].r.item(),
                            1 << 32)),
         ('len', smt.TRUE if outs[0].shape == (n + 1,) else smt.FALSE)]
    return g
  return Obl(f'noiseless embedding n={n}', call, inputs, goals,
             encoded=[lwe.noiseless_embedding],
             bounds='every plaintext, every key (any 32-bit entries)')


def genkey():
  params = parameters.SchemeParameters(plaintext_modulus=2**32,
                                       lwe_dimension=5,
                                       polynomial_modulus_degree=8,
                                       rlwe_dimension=2)
  def inputs():
    return [varr('s', (5,), U, 0, 1)]

  def call(s):
    k = lwe.gen_key(params, common.Prg([s]))
    return k.key_data, jnp.uint32(k.log_modulus), jnp.uint32(k.lwe_dimension)

  def goals(ins, outs):
    return [(f's{i}', smt.Eq(outs[0].x[i], ins[0].x[i])) for i in range(5)
            ] + [('logq', smt.Eq(outs[1].x.item(), 32)),
                 ('n', smt.Eq(outs[2].x.item(), 5))]
  return Obl('gen_key', call, inputs, goals, encoded=[lwe.gen_key],
             bounds='5-entry keys')


def modswitch(n, cases, tier='quick'):
  """Entries rounded to nearest; phase drifts by at most (n+1)/2."""
  st = {}

  def inputs(case):
    st['io'] = case
    i, o = case
    return [varr('c', (n + 1,), U, 0, (1 << i) - 1)]

  def call(c):
    i, o = st['io']
    return lwe.switch_modulus(c, jnp.uint32(i), jnp.uint32(o))

  def goals(ins, outs):
    i, o = st['io']
    d = i - o
    half = 1 << (d - 1) if d else 0
    g = []
    for k in range(n + 1):
      g.append((f'c{k}', smt.Eq(outs[0].x[k], T.mod(
          T.floordiv(T.add(ins[0].x[k], half), 1 << d), 1 << o))))
    return g
  return Obl(f'switch_modulus n={n} #{cases[0]}', call, inputs, goals,
             cases=cases, encoded=[lwe.switch_modulus,
                                   matrix_utils.integer_div],
             bounds=f'dimension {n}, {len(cases)} modulus pairs, every '
             'ciphertext', tier=tier)


def modswitch_phase(n, i, o, tier='quick'):
  """The docstring's bound: the extra error is at most (n+1)/2."""
  d = i - o

  def inputs():
    return [varr('c', (n + 1,), U, 0, (1 << i) - 1),
            varr('s', (n,), U, 0, 1)]

  def call(c, s):
    k = key(n, o, s)
    return lwe.decrypt_without_denoising(
        lwe.switch_modulus(c, jnp.uint32(i), jnp.uint32(o)), k)

  def goals(ins, outs):
    old = common.phase(ins[0].r, ins[1].r)
    ph = outs[0].r.reshape(-1)[0]
    # 2^d * new - old within (n+1)/2 * 2^d modulo 2^i
    half = 1 << (d - 1) if d else 0
    # choose the multiple of 2^o that undoes the wraparound
    diff = T.sub(T.mul(ph, 1 << d), old)
    # rounded entries are taken mod 2^o; everything mod 2^i
    return [('drift', common.near(diff, 0, (n + 1) * half, i))]
  return Obl(f'switch_modulus drift n={n} {i}->{o}', call, inputs, goals,
             encoded=[lwe.switch_modulus], nl=True,
             bounds='every ciphertext, every binary key', tier=tier)


def obligations(tier):
  obs = [enc(n, q) for n in (1, 4, 16) for q in (32, 16, 10, 31)]
  obs += [end_to_end(6, q, m, p) for q, m, p in
          ((32, 3, 1), (32, 1, 0), (32, 8, 2), (32, 24, 4), (16, 3, 1),
           (10, 3, 2))]
  obs += [embedding(1), embedding(6), genkey()]
  pairs = [(32, o) for o in range(1, 32)] + [
      (i, o) for i in (10, 16, 24, 31) for o in range(1, i + 1)]
  pairs = [p for p in pairs if p[0] - p[1] <= 31]
  for c in range(4):
    obs.append(modswitch(4, pairs[c::4]))
  obs += [modswitch_phase(3, 32, 10), modswitch_phase(2, 32, 11),
          modswitch_phase(2, 16, 8)]
  obs += [enc(n, q, 'thorough') for n in (64, 632) for q in (32, 16)]
  obs += [modswitch_phase(5, 32, 11, 'thorough')]
  return obs
