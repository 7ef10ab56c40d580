"""C11: bit slices and lookup tables."""
JOBS = 8
ASSUMPTIONS = [
    'Bit slices hold Booleans (or 0 and 1). bit_slice_to_bytes is specified '
    'for whole bytes only.',
]

import jax
import jax.numpy as jnp
import numpy as np
from checks import common
common.cggi()
from jaxite.jaxite_bool import bool_encoding, type_converters as tc
from jaxite.jaxite_bool import lut as bool_lut
from jaxite.jaxite_cggi import parameters, test_polynomial
from jv import pysym as P
from jv import smt, terms as T
from jv.harness import Obl, obj


class Bytes:
  """bytes, keeping symbolic values."""

  def __new__(cls, v):
    out = []
    for x in v:
      t = P.tm(x)
      if not P.EX.decide(T.mul(T.ge(t, 0), T.ge(255, t))):
        raise ValueError('bytes must be in range(0, 256)')
      out.append(x)
    return out


CTX = P.PyCtx(lambda: [tc], [(tc, 'bytes', Bytes)])
LCTX = P.PyCtx((), [(bool_lut, 'int', P.PyInt)])
SP = parameters.SchemeParameters(
    lwe_dimension=3, plaintext_modulus=2**32, rlwe_dimension=1,
    polynomial_modulus_degree=16)


def bitvars(n, tag='b'):
  return [T.var(f'{tag}{i}', 0, 1) for i in range(n)]


def parr(v):
  return P.PArr(obj((len(v),), v))


def value(bits):
  return T.total([T.mul(b, 1 << i) for i, b in enumerate(bits)])


def bits_of(v, n):
  return [T.mod(T.floordiv(v, 1 << i), 2) for i in range(n)]


def flat(outs):
  return [v.x[()] for v in outs]


def equal(label, got, want):
  if len(got) != len(want):
    return [(f'{label}: length', smt.FALSE)]
  return [(f'{label} {i}', smt.Eq(a, b))
          for i, (a, b) in enumerate(zip(got, want))]


def to_bits(n):
  def goals(ins, outs):
    o = flat(outs)
    return equal('bit', o[:-1], bits_of(ins[0].x[()], n)) + [
        ('back', smt.Eq(o[-1], ins[0].x[()]))]

  def call(v):
    b = tc.uint_to_bit_slice(v, n)
    return [len(b) == n and x for x in b] + [tc.bit_slice_to_uint(b, n)]
  return Obl(f'uint_to_bit_slice {n}', call, lambda: [
      P.PArr(P._one(value(bitvars(n))))], goals, mode='py',
             pyctx=CTX, encoded=[tc.uint_to_bit_slice, tc.bit_slice_to_uint],
             bounds=f'every {n}-bit integer')


def from_bits(n, u8=False):
  def call(b):
    b = P.lst(b)
    if u8:
      v = tc.bit_slice_to_u8(b)
      return [v] + tc.u8_to_bit_slice(v)
    v = tc.bit_slice_to_uint(b, n)
    return [v] + tc.uint_to_bit_slice(v, n)

  def goals(ins, outs):
    o = flat(outs)
    return equal('value', o[:1], [value(ins[0].x)]) + equal(
        'bit', o[1:], list(ins[0].x))
  return Obl(f'bit_slice_to_{"u8" if u8 else f"uint {n}"}', call,
             lambda: [parr(bitvars(n))], goals, mode='py', pyctx=CTX,
             encoded=[tc.bit_slice_to_u8 if u8 else tc.bit_slice_to_uint],
             bounds=f'every {n} bits', max_paths=300)


def refused(name, fn, n):
  """A slice of length n is refused."""
  return Obl(f'{name} refuses {n} bits', lambda b: fn(P.lst(b)),
             lambda: [parr(bitvars(n))] if n else [P.PArr(np.empty(0, object))],
             lambda i, o: [('refused', smt.FALSE)], mode='py', pyctx=CTX,
             raises=(ValueError,), on_raise=lambda i, e: [], encoded=[fn]
             if hasattr(fn, '__code__') and fn.__name__ != '<lambda>' else [],
             bounds=f'every slice of {n} bits')


def u8():
  """Integers outside 0..255 are refused, the rest converted."""
  def call(v):
    try:
      return [0] + tc.u8_to_bit_slice(v)
    except ValueError:
      return [1]

  def goals(ins, outs):
    v, o = ins[0].x[()], flat(outs)
    if o[0] == 1:
      return [('refused', smt.Not(smt.In(v, 0, 255)))]
    return [('accepted', smt.In(v, 0, 255))] + equal(
        'bit', o[1:], bits_of(v, 8))
  return Obl('u8_to_bit_slice', call, lambda: [
      P.PArr(P._one(T.var('v', -70000, 70000)))], goals, mode='py', pyctx=CTX,
             encoded=[tc.u8_to_bit_slice], max_paths=20,
             bounds='every integer within +-70000')


def byte_list(k):
  """List of bytes to bits and back."""
  def call(v):
    b = tc.u8_list_to_bit_slice(P.lst(v))
    return list(b) + list(tc.bit_slice_to_bytes(b))

  def goals(ins, outs):
    o = flat(outs)
    v = list(ins[0].x)
    return equal('bit', o[:8 * k], [b for x in v for b in bits_of(x, 8)]
                 ) + equal('byte', o[8 * k:], v)
  return Obl(f'u8_list_to_bit_slice {k}', call, lambda: [
      parr([value(bitvars(8, f'v{i}_')) for i in range(k)])], goals, mode='py',
             pyctx=CTX, encoded=[tc.u8_list_to_bit_slice,
                                 tc.bit_slice_to_bytes],
             bounds=f'every {k} bytes')


def to_bytes(k):
  def call(b):
    return list(tc.bit_slice_to_bytes(P.lst(b)))

  def goals(ins, outs):
    b = list(ins[0].x)
    return equal('byte', flat(outs),
                 [value(b[8 * i:8 * i + 8]) for i in range(k)])
  return Obl(f'bit_slice_to_bytes {k}', call,
             lambda: [parr(bitvars(8 * k))], goals, mode='py', pyctx=CTX,
             encoded=[tc.bit_slice_to_bytes], bounds=f'every {8 * k} bits')


# ------------------------------------------------- lookup tables
def table(n, tag='t'):
  return P.PArr(P._one(value(bitvars(1 << n, tag))))


def rows(n):
  """as_cleartext_list and the printed form."""
  def call(t):
    l = bool_lut.LookUpTable(n, t)
    return list(l.as_cleartext_list) + [l.num_inputs, l.truth_table]

  def goals(ins, outs):
    t, o = ins[0].x[()], flat(outs)
    return equal('row', o, bits_of(t, 1 << n) + [n, t])
  return Obl(f'LookUpTable rows {n}', call, lambda: [table(n)], goals,
             mode='py', pyctx=LCTX, max_paths=300,
             encoded=[bool_lut.LookUpTable],
             bounds=f'every table of {n} inputs')


def from_fn(n):
  """from_callable tabulates the function, first input most significant."""
  def call(f):
    f = P.lst(f)
    seen = []

    def fn(*a):
      i = 0
      for x in a:
        i = 2 * i + int(bool(x))
      seen.append(i)
      return f[i]
    l = bool_lut.from_callable(n, fn)
    return [l.num_inputs, l.truth_table, int(set(seen) == set(range(1 << n)))]

  def goals(ins, outs):
    return equal('table', flat(outs), [n, value(ins[0].x), 1])
  return Obl(f'from_callable {n}', call, lambda: [parr(bitvars(1 << n, 'f'))],
             goals, mode='py', pyctx=LCTX, encoded=[bool_lut.from_callable],
             bounds=f'every Boolean function of {n} inputs')


NAMES = {
    'and': lambda x, y: T.mul(x, y),
    'andny': lambda x, y: T.mul(T.b_not(x), y),
    'andyn': lambda x, y: T.mul(x, T.b_not(y)),
    'nand': lambda x, y: T.b_not(T.mul(x, y)),
    'nor': lambda x, y: T.mul(T.b_not(x), T.b_not(y)),
    'or': lambda x, y: T.b_not(T.mul(T.b_not(x), T.b_not(y))),
    'orny': lambda x, y: T.b_not(T.mul(x, T.b_not(y))),
    'oryn': lambda x, y: T.b_not(T.mul(T.b_not(x), y)),
    'xnor': lambda x, y: T.eq(x, y),
    'xor': lambda x, y: T.b_not(T.eq(x, y)),
    'cmux': lambda v1, v0, c: T.add(T.mul(c, v1), T.mul(T.b_not(c), v0)),
}


def coefficients(bits):
  """Coefficients of the table's test polynomial."""
  pad = (1 << bool_encoding.ENCODING_PARAMS.message_bit_length) - len(bits)
  return jnp.array(list(bits) + [int(bool_encoding.CLEARTEXT_UNUSED)] * pad,
                   dtype=jnp.uint32)


def poly(bits):
  r = test_polynomial.gen_and_encrypt(coefficients(bits),
                                      bool_encoding.ENCODING_PARAMS, SP)
  return np.asarray(r.message).ravel()


def named(name):
  n = 3 if name == 'cmux' else 2

  def call(b):
    cache = bool_lut.LutCache(SP)
    l = cache.lut_by_name(name)
    i = 0
    for x in P.lst(b):
      i = 2 * i + x
    r = list(l.as_cleartext_list)
    p = cache.lut_poly_by_name(name)
    same = np.array_equal(np.asarray(p.message).ravel(), poly(r))
    return [l.num_inputs, (l.truth_table >> i) & 1, r[i], len(r), int(same)]

  def goals(ins, outs):
    v = NAMES[name](*ins[0].x)
    return equal(name, flat(outs), [n, v, v, 1 << n, 1])
  return Obl(f'lut_by_name {name}', call, lambda: [parr(bitvars(n))], goals,
             mode='py', pyctx=LCTX, max_paths=20,
             encoded=[bool_lut.LutCache.lut_by_name],
             bounds='every input of the gate')


def unknown():
  return Obl('lut_by_name refuses other names',
             lambda x: bool_lut.LutCache(SP).lut_by_name('no such gate'),
             lambda: [parr(bitvars(1))], lambda i, o: [('refused', smt.FALSE)],
             mode='py', pyctx=LCTX, raises=(ValueError,),
             on_raise=lambda i, e: [], bounds='one unknown name')


def history(n1, n2, hi=None):
  """Tables asked of one cache, one after the other."""
  tops = [(1 << (1 << n)) - 1 for n in (n1, n2)]
  if hi:
    tops = [min(t, hi) for t in tops]

  def call(v):
    t1, t2 = P.lst(v)
    c = bool_lut.LutCache(SP)
    a, b = c.lut(n1, t1), c.lut(n2, t2)
    pa = np.asarray(c.lut_poly(n1, t1).message).ravel()
    pb = np.asarray(c.lut_poly(n2, t2).message).ravel()
    d = c.lut(n1, t1)
    la, lb = list(a.as_cleartext_list), list(b.as_cleartext_list)
    return ([a.num_inputs, a.truth_table, b.num_inputs, b.truth_table,
             d.num_inputs, d.truth_table,
             int(np.array_equal(pa, poly(la))),
             int(np.array_equal(pb, poly(lb)))] + la + lb)

  def goals(ins, outs):
    t1, t2 = ins[0].x
    return equal('table', flat(outs), [n1, t1, n2, t2, n1, t1, 1, 1]
                 + bits_of(t1, 1 << n1) + bits_of(t2, 1 << n2))
  return Obl(f'LutCache {n1},{n2} inputs', call, lambda: [
      parr([T.var('t1', 0, tops[0]), T.var('t2', 0, tops[1])])], goals,
             mode='py', pyctx=LCTX, max_paths=5000,
             encoded=[bool_lut.LutCache.lut, bool_lut.LutCache.lut_poly],
             bounds=f'tables up to {tops[0]} and {tops[1]}')


def obligations(tier):
  q = tier == 'quick'
  obs = [to_bits(n) for n in ((1, 3, 8, 16, 32) if q else range(1, 65))]
  obs += [from_bits(n) for n in ((1, 3, 8, 16, 32) if q else range(1, 65))]
  obs += [from_bits(8, True), u8()]
  obs += [byte_list(k) for k in ((1, 2, 3) if q else range(1, 9))]
  obs += [to_bytes(k) for k in ((1, 2, 3) if q else range(1, 9))]
  for n in (0, 7, 9, 16):
    obs.append(refused('bit_slice_to_u8', tc.bit_slice_to_u8, n))
  for n in (0, 3, 5):
    obs.append(refused('bit_slice_to_uint',
                       lambda b: tc.bit_slice_to_uint(b, 4), n))
  obs.append(refused('bit_slice_to_bytes', tc.bit_slice_to_bytes, 0))
  obs.append(refused('u8_list_to_bit_slice', tc.u8_list_to_bit_slice, 0))
  obs += [rows(n) for n in (1, 2, 3)]
  obs += [from_fn(n) for n in (1, 2, 3, 4)]
  obs += [named(n) for n in NAMES] + [unknown()]
  hi = 7 if q else 15
  obs += [history(2, 2, hi), history(1, 2, hi), history(2, 1, hi)]
  obs += [history(2, 3, hi), history(3, 2, hi)]
  if not q:
    obs += [history(1, 3), history(3, 1)]
  return obs
