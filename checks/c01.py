"""C01: encoding and decoding of cleartexts tolerates bounded noise."""
JOBS = 8
ASSUMPTIONS = [
    'Cleartexts and plaintexts are 32-bit unsigned values, as in the API.',
]

import jax.numpy as jnp
import numpy as np
from checks import common
common.cggi()
from jaxite.jaxite_bool import bool_encoding
from jaxite.jaxite_cggi import encoding
from jaxite.jaxite_cggi import types as ctypes
from jv import jaxsym as J
from jv import smt, terms as T
from jv.harness import Arr, Obl, SymInt, obj, varr

PATCH = [(encoding, 'int', SymInt), (ctypes, 'LweCleartext', SymInt)]


def mk(case):
  t, m, p = case
  return encoding.EncodingParameters(total_bit_length=t, message_bit_length=m,
                                     padding_bit_length=p)


def roundtrip(name, cases, tier='quick', padded=False, shape=(2,)):
  st = {}

  def inputs(case):
    st['p'] = mk(case)
    t, m, p = case
    err = t - m - p
    hi = (1 << (m + p if padded else m)) - 1
    b = 1 << (err - 1) if err else 0
    # noise in [-2^(err-1), 2^(err-1)): the half-open rounding cell
    noise = [T.var(f'e{i}', -b, b - 1) if err else 0 for i in range(shape[0])]
    st['noise'] = noise
    return [varr('m', shape, 'uint32', 0, hi),
            Arr(obj(shape, [J.wrap(e, 'uint32') for e in noise]), 'uint32')]

  def call(msg, noise):
    pt = encoding.encode(msg, st['p'], padded)
    if padded:
      return jnp.stack([
          jnp.asarray(encoding.decode_without_removing_padding(
              pt[i] + noise[i], st['p'])) for i in range(shape[0])])
    return jnp.stack([jnp.asarray(encoding.decode(pt[i] + noise[i], st['p']))
                      for i in range(shape[0])])

  def goals(ins, outs):
    return [(f'm{i}', smt.Eq(outs[0].x[i], ins[0].x[i]))
            for i in range(shape[0])]
  return Obl(name, call, inputs, goals, cases=cases, patches=PATCH,
             encoded=[encoding.encode, encoding.decode, encoding.remove_noise,
                      encoding.round_to_power_of_2],
             bounds=f'{len(cases)} parameter sets, every message, every noise '
             'in the rounding cell', tier=tier)


def decode_any(name, cases, tier='quick'):
  """decode of an arbitrary plaintext is the nearest message."""
  st = {}

  def inputs(case):
    st['p'], st['c'] = mk(case), case
    return [varr('x', (), 'uint32')]

  def call(x):
    return (encoding.decode(x, st['p']),
            encoding.decode_without_removing_padding(x, st['p']),
            encoding.remove_noise(x, st['p']))

  def goals(ins, outs):
    t, m, p = st['c']
    err = t - m - p
    x = ins[0].x.item()
    half = 1 << (err - 1) if err else 0
    near = T.floordiv(T.add(x, half), 1 << err)
    g = [('decode', smt.Eq(outs[0].x.item(), T.mod(near, 1 << m))),
         ('padded', smt.Eq(outs[1].x.item(), T.mod(near, 1 << (m + p)))),
         ('rounded', smt.Cong(outs[2].r.item(), T.mul(near, 1 << err),
                              1 << 32))]
    return g
  return Obl(name, call, inputs, goals, cases=cases, patches=PATCH,
             encoded=[encoding.decode, encoding.remove_noise,
                      encoding.decode_without_removing_padding],
             bounds=f'{len(cases)} parameter sets, all 2^32 plaintexts',
             tier=tier)


def bounds_ob(name, cases, poly, tier='quick'):
  """encode raises exactly when a message is out of range."""
  st = {}

  def inputs(case):
    st['p'], st['c'] = mk(case), case
    return [varr('m', (2,), 'uint32')]

  def call(msg):
    return encoding.encode(msg, st['p'], poly)

  def ok(ins):
    t, m, p = st['c']
    hi = (1 << (m + p if poly else m)) - 1
    return smt.And(*[smt.Le(v, hi) for v in ins[0].x])

  def goals(ins, outs):
    t, m, p = st['c']
    return [('accepted only in range', ok(ins))] + [
        (f'v{i}', smt.Cong(outs[0].r[i], T.mul(ins[0].x[i],
                                               1 << (t - m - p)), 1 << 32))
        for i in range(2)]

  def on_raise(ins, exc):
    return [('rejected only out of range', smt.Not(ok(ins)))]
  return Obl(name, call, inputs, goals, cases=cases, raises=(ValueError,),
             on_raise=on_raise, encoded=[encoding.encode],
             bounds=f'{len(cases)} parameter sets, all message pairs',
             tier=tier)


def rounding(tier='quick'):
  st = {}

  def inputs(k):
    st['k'] = k
    return [varr('x', (2,), 'uint32')]

  def call(x):
    return encoding.round_to_power_of_2(x, st['k'])

  def goals(ins, outs):
    k = st['k']
    return [(f'x{i}', smt.Cong(
        outs[0].r[i],
        T.mul(T.floordiv(T.add(ins[0].x[i], 1 << (k - 1)), 1 << k), 1 << k),
        1 << 32)) for i in range(2)]
  return Obl('round_to_power_of_2', call, inputs, goals,
             cases=list(range(1, 32)), encoded=[encoding.round_to_power_of_2],
             bounds='every power 1..31, all 2^32 values')


def obligations(tier):
  b = bool_encoding.ENCODING_PARAMS
  boolp = (b.total_bit_length, b.message_bit_length, b.padding_bit_length)
  full = [(32, m, p) for m in range(1, 32) for p in range(0, 32)
          if m + p <= 31]
  some = [(32, m, p) for m, p in ((1, 0), (1, 1), (2, 1), (3, 1), (3, 2),
                                  (4, 0), (8, 2), (12, 4), (16, 8), (20, 11),
                                  (30, 1), (31, 0))]
  exact = [(32, 16, 16), (32, 31, 1), (32, 8, 24)]
  small = [(t, m, p) for t in (6, 10, 16, 24, 31) for m, p in
           ((1, 0), (2, 1), (3, 1), (3, 2)) if m + p < t]
  obs = []
  for i, cs in enumerate(np.array_split(np.array(some + small + [boolp]), 8)):
    cs = [tuple(int(v) for v in c) for c in cs]
    obs.append(roundtrip(f'decode(encode(m)+e)=m #{i}', cs))
    obs.append(roundtrip(f'padded decode(encode(m)+e)=m #{i}', cs,
                         padded=True))
    obs.append(decode_any(f'decode rounds to nearest #{i}', cs))
    obs.append(bounds_ob(f'encode range check #{i}', cs, False))
    obs.append(bounds_ob(f'encode range check (test polynomial) #{i}', cs,
                         True))
  obs.append(rounding())
  for i, cs in enumerate(np.array_split(np.array(full), 16)):
    cs = [tuple(int(v) for v in c) for c in cs]
    obs.append(roundtrip(f'decode(encode(m)+e)=m all32 #{i}', cs, 'thorough'))
    obs.append(decode_any(f'decode rounds to nearest all32 #{i}', cs,
                          'thorough'))
    obs.append(bounds_ob(f'encode range check all32 #{i}', cs, True,
                         'thorough'))
  return obs
