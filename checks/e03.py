"""E03: lazy reduction."""
JOBS = 8
ASSUMPTIONS = [
    'Operands are any 25-limb vectors (400 bits); batch sizes are the listed '
    'ones. The modulus is the library\'s field prime (and, through the '
    'parameter for the reduction table, one other prime).',
]

from checks.ecc import *
from checks import e01

EXT = 25
P381 = 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab


def table(p):
  """Byte digits of 256^(48+i) mod p, as the function expects its table."""
  return tuple(tuple((pow(256, 48 + i, p) >> (8 * j)) & 255
                     for j in range(48)) for i in range(52))


def mod_mul(batch, p=None, own=False):
  q = p or P377

  def call(a, b):
    if p is None:
      return ff.mod_mul_lazy_2u16(a, b)
    mat = util.construct_lazy_matrix(p) if own else table(p)
    return ff.mod_mul_lazy_2u16(a, b, modulus_lazy_mat=mat)

  def goals(ins, outs):
    g = []
    if outs[0].shape != (batch, EXT):
      return [('shape', smt.FALSE)]
    for r, (a, b, c) in enumerate(zip(rows(ins[0]), rows(ins[1]),
                                      rows(outs[0]))):
      g += [(f'row {r} limb {i}', smt.In(v, 0, 65535))
            for i, v in enumerate(c)]
      g.append((f'row {r} congruent',
                smt.Cong(num(c), T.mul(num(a), num(b)), q)))
      g.append((f'row {r} leaves headroom', smt.Le(num(c), (1 << 384) + 52 * 255 * q)))
    return g

  return Obl(f'mod_mul_lazy_2u16 x{batch}'
             + (f' p={q:#x}'[:12] if p else '') + (' own table' if own else ''),
             call, lambda: [limbs('a', (batch, EXT), chunk=8),
                            limbs('b', (batch, EXT), chunk=8)], goals,
             encoded=[ff.mod_mul_lazy_2u16, ff.mul_2u16, ff.rechunkify,
                      util.construct_lazy_matrix],
             bounds=f'every pair of 25-limb operands, batch {batch}, '
             f'p = {q:#x}')


def constants():
  def goals(ins, outs):
    g = [('the prime', smt.Eq(util.MODULUS_377_INT, P377)),
         ('the shifted prime', smt.Eq(num(util.MODULUS_377_S16_INT_CHUNK),
                                      P377 << 16))]
    return g
  return Obl('constants', lambda x: x, lambda: [varr('x', (1,), U16)], goals,
             bounds='the default parameters')


def sums(k, batch):
  """Sums of lazily reduced values stay inside 25 limbs."""
  fn = ff.add_2u16 if k == 2 else ff.add_3u16
  o = e01.add(f'{fn.__name__} of lazily reduced values x{batch}', fn, k, EXT,
              batch, 0x5554)
  return o


def obligations(tier):
  obs = [constants(), mod_mul(1), mod_mul(2), mod_mul(1, P381),
         mod_mul(1, P381, own=True), sums(2, 2), sums(3, 1),
         e01.mul(EXT, 2, U8), e01.sub(EXT, 2, top=65535)]
  if tier != 'quick':
    obs += [mod_mul(4)]
  return obs
