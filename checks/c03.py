"""C03: RLWE and RGSW encryption and decryption."""
JOBS = 8
ASSUMPTIONS = [
    'The random source returns uniform words, binary key entries and noise '
    'bounded by the stated bound; its distribution is not examined.',
    'Gadget ciphertexts use one noise sample per row (as the code draws it) '
    'or any number of samples, each bounded: only boundedness is specified.',
]

import jax.numpy as jnp
import numpy as np
from checks import common
common.cggi()
from jaxite.jaxite_cggi import decomposition, encoding, lwe, parameters
from jaxite.jaxite_cggi import rgsw, rlwe
from jv import jaxsym as J
from jv import smt, terms as T
from jv.harness import Arr, Obl, obj, varr

U = 'uint32'


def rkey(k, n, data, logq=32):
  return rlwe.RlweSecretKey(log_coefficient_modulus=logq, modulus_degree=n,
                            rlwe_dimension=k, data=data)


def rpt(n, m, logq=32):
  return rlwe.RlwePlaintext(log_coefficient_modulus=logq, modulus_degree=n,
                            message=m)


def rl_enc(k, n, logq=32, tier='quick'):
  def reqs():
    return common.prg_requests(('rlwe', k, n, logq), lambda p: rlwe.encrypt(
        rpt(n, jnp.zeros(n, jnp.uint32), logq),
        rkey(k, n, jnp.zeros((k, n), jnp.uint32), logq), p))

  def inputs():
    return [varr('m', (n,), U, 0, (1 << logq) - 1),
            varr('s', (k, n), U, 0, 1)] + common.prg_inputs(
                reqs(), 1 << (logq - 3))

  def call(m, s, *rnd):
    ct = rlwe.encrypt(rpt(n, m, logq), rkey(k, n, s, logq), common.Prg(rnd))
    return ct.message

  def goals(ins, outs):
    ct = outs[0]
    ph = common.raw_rlwe_phase(ct.r, ins[1].r)
    es = [a for a, r in zip(ins[2:], reqs()) if r[0] == 'normal']
    g = [('shape', smt.TRUE if ct.shape == (k + 1, n) else smt.FALSE)]
    for i in range(n):
      w = ins[0].r[i]
      for e in es:
        w = J.m_addsub(w, e.r.ravel()[i % e.r.size], U, 1)
      g.append((f'phase{i}', smt.Cong(ph[i], w, 1 << logq)))
    if logq < 32:
      g += [(f'red{i}', smt.Le(ct.x[-1][i], (1 << logq) - 1))
            for i in range(n)]
    return g
  return Obl(f'rlwe encrypt phase k={k} N={n} logq={logq}', call, inputs,
             goals, encoded=[rlwe.encrypt, rlwe.jit_encrypt],
             bounds=f'k={k}, N={n}, modulus 2^{logq}; every message, binary '
             'key, mask; every noise up to an eighth of the modulus',
             tier=tier)


def rl_dec(k, n, msg, pad, logq=32, tier='quick'):
  """decrypt of an arbitrary ciphertext = nearest encoded message of phase."""
  ep = encoding.EncodingParameters(total_bit_length=logq,
                                   message_bit_length=msg,
                                   padding_bit_length=pad)
  err = logq - msg - pad

  def inputs():
    return [varr('c', (k + 1, n), U, 0, (1 << logq) - 1),
            varr('s', (k, n), U, 0, 1)]

  def call(c, s):
    ct = rlwe.RlweCiphertext(log_coefficient_modulus=logq, modulus_degree=n,
                             message=c)
    p = rlwe.decrypt(ct, rkey(k, n, s, logq), ep)
    return p.message

  def goals(ins, outs):
    ph = common.raw_rlwe_phase(ins[0].r, ins[1].r)
    g = [('shape', smt.TRUE if outs[0].shape == (n,) else smt.FALSE)]
    for i in range(n):
      # out = 2^err * round(phase / 2^err)
      g.append((f'near{i}', smt.And(
          smt.Cong(outs[0].r[i], 0, 1 << err),
          common.near(outs[0].r[i], ph[i], 1 << (err - 1), logq))))
    return g
  return Obl(f'rlwe decrypt k={k} N={n} msg={msg} pad={pad} logq={logq}',
             call, inputs, goals, encoded=[rlwe.decrypt], chunk=1,
             bounds='every ciphertext, every binary key', tier=tier)


def flatten(k, n):
  def inputs():
    return [varr('s', (k, n), U, 0, 1)]

  def call(s):
    f = rlwe.flatten_key(rkey(k, n, s))
    return f.key_data, jnp.uint32(f.lwe_dimension), jnp.uint32(f.log_modulus)

  def goals(ins, outs):
    return [(f's{i}', smt.Eq(outs[0].x[i], ins[0].x.ravel()[i]))
            for i in range(k * n)] + [
                ('dim', smt.Eq(outs[1].x.item(), k * n)),
                ('logq', smt.Eq(outs[2].x.item(), 32))]
  return Obl(f'flatten_key k={k} N={n}', call, inputs, goals,
             encoded=[rlwe.flatten_key], bounds='every key')


def genkeys(k, n):
  sp = parameters.SchemeParameters(
      lwe_dimension=3, plaintext_modulus=2**32, rlwe_dimension=k,
      polynomial_modulus_degree=n)

  def inputs():
    return [varr('s', (k, n), U, 0, 1)]

  def call(s):
    a = rlwe.gen_key(sp, common.Prg([s]))
    b = rgsw.gen_key(sp, common.Prg([s])).to_rlwe_secret_key()
    c = rgsw.key_from_rlwe(a).to_rlwe_secret_key()
    return [a.data, b.data, c.data, jnp.array(
        [v for z in (a, b, c) for v in (
            z.log_coefficient_modulus, z.modulus_degree, z.rlwe_dimension)],
        jnp.uint32)]

  def goals(ins, outs):
    g = []
    for j in range(3):
      g += [(f'{j}{i}', smt.Eq(a, b)) for i, (a, b) in enumerate(
          zip(outs[j].x.ravel(), ins[0].x.ravel()))]
    return g + [(f'f{i}', smt.Eq(v, (32, n, k)[i % 3]))
                for i, v in enumerate(outs[3].x)]
  return Obl(f'gen_key k={k} N={n}', call, inputs, goals,
             encoded=[rlwe.gen_key, rgsw.gen_key, rgsw.key_from_rlwe],
             bounds='every key')


def gsw_reqs(k, n, L, lb):
  dp = decomposition.DecompositionParameters(log_base=lb, level_count=L)
  return common.prg_requests(('rgsw', k, n, L, lb), lambda p: rgsw.encrypt(
      rgsw.RgswPlaintext(modulus_degree=n, message=jnp.uint32(0)),
      rgsw.RgswSecretKey(rkey(k, n, jnp.zeros((k, n), jnp.uint32))), dp, p))


def gsw_enc(k, n, L, lb, tier='quick'):
  """Row (block, level): RLWE encryption of m*q/B^level*(-s_block | 1)."""
  dp = decomposition.DecompositionParameters(log_base=lb, level_count=L)
  B = 1 << 20

  def inputs():
    return [varr('m', (), U, 0, 1), varr('s', (k, n), U, 0, 1)
            ] + common.prg_inputs(gsw_reqs(k, n, L, lb), B)

  def call(m, s, *rnd):
    ct = rgsw.encrypt(rgsw.RgswPlaintext(modulus_degree=n, message=m),
                      rgsw.RgswSecretKey(rkey(k, n, s)), dp, common.Prg(rnd))
    return ct.message

  def goals(ins, outs):
    ct, m = outs[0], ins[0].r.item()
    g = [('shape', smt.TRUE if ct.shape == (L * (k + 1), k + 1, n)
          else smt.FALSE)]
    if ct.shape != (L * (k + 1), k + 1, n):
      return g
    for row in range(L * (k + 1)):
      blk, lev = row // L, row % L + 1
      ph = common.raw_rlwe_phase(ct.r[row], ins[1].r)
      sc = (1 << (32 - lb * lev)) % (1 << 32)
      for i in range(n):
        if blk == k:
          want = T.mul(m, sc) if i == 0 else 0
        else:
          want = J.wrap(T.mul(T.mul(m, ins[1].r[blk][i]), -sc), U)
        g.append((f'row{row} coeff{i}', common.near(ph[i], want, B)))
    return g
  return Obl(f'rgsw encrypt rows k={k} N={n} L={L} logB={lb}', call, inputs,
             goals, encoded=[rgsw.encrypt, rgsw.jit_encrypt],
             bounds=f'k={k}, N={n}, {L} levels base 2^{lb}; every bit, every '
             f'binary key, every mask, every noise up to {B}', tier=tier)


def gsw_rt(k, n, L, lb, msg_hi, tier='quick'):
  """decrypt(encrypt(m)) == m unless no key polynomial starts with 1."""
  dp = decomposition.DecompositionParameters(log_base=lb, level_count=L)
  B = (1 << (32 - lb - 1)) - 1
  st = {}

  def inputs():
    return [varr('m', (), U, 0, msg_hi), varr('s', (k, n), U, 0, 1)
            ] + common.prg_inputs(gsw_reqs(k, n, L, lb), B)

  def call(m, s, *rnd):
    sk = rgsw.RgswSecretKey(rkey(k, n, s))
    ct = rgsw.encrypt(rgsw.RgswPlaintext(modulus_degree=n, message=m), sk, dp,
                      common.Prg(rnd))
    return rgsw.decrypt(ct, dp, sk).message

  def has1(ins):
    return smt.Or(*[smt.Eq(ins[1].x[j][0], 1) for j in range(k)])

  def goals(ins, outs):
    return [('message', smt.Eq(outs[0].x.item(), ins[0].x.item())),
            ('usable key', has1(ins))]

  def on_raise(ins, exc):
    return [('rejected only without a usable key', smt.Not(has1(ins)))]
  return Obl(f'rgsw round trip k={k} N={n} L={L} logB={lb} m<={msg_hi}', call,
             inputs, goals, raises=(ValueError,), on_raise=on_raise,
             encoded=[rgsw.encrypt, rgsw.decrypt],
             bounds='every message, key, mask; every noise below half a cell',
             tier=tier)


def obligations(tier):
  obs = [rl_enc(k, n) for k, n in ((1, 2), (1, 8), (2, 4), (3, 4), (1, 16))]
  obs += [rl_enc(1, 4, 16), rl_enc(2, 4, 24), rl_enc(1, 4, 31)]
  obs += [rl_dec(1, 4, 3, 1), rl_dec(2, 4, 3, 1), rl_dec(1, 8, 4, 0),
          rl_dec(2, 2, 8, 2), rl_dec(1, 4, 3, 1, 16), rl_dec(3, 2, 1, 1, 24)]
  obs += [flatten(1, 8), flatten(3, 4), genkeys(1, 4), genkeys(3, 2)]
  obs += [gsw_enc(k, n, L, lb) for k, n, L, lb in (
      (1, 4, 2, 4), (1, 2, 6, 4), (2, 2, 3, 6), (1, 4, 3, 8), (3, 2, 2, 5))]
  obs += [gsw_rt(1, 4, 2, 4, 1), gsw_rt(2, 2, 3, 4, 15),
          gsw_rt(3, 2, 2, 6, 63), gsw_rt(1, 2, 6, 4, 15)]
  obs += [rl_enc(1, 64, tier='thorough'), rl_enc(3, 16, tier='thorough'),
          gsw_enc(3, 8, 6, 4, 'thorough'), gsw_enc(1, 16, 5, 4, 'thorough'),
          rl_dec(3, 8, 3, 1, tier='thorough'),
          gsw_rt(3, 8, 6, 4, 15, 'thorough')]
  return obs
