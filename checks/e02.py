"""E02: Barrett multiplication and reduction."""
JOBS = 8
ASSUMPTIONS = [
    'Operands have 24 limbs with a top limb of at most 0x1ae (every residue of '
    'the field and a little more); products to be reduced are below 2^754 '
    '(every product of two residues). Batch sizes are the listed ones.',
    'The multiplications inside are replaced by their exact results where the '
    'traced call is the very one whose exactness other obligations of this '
    'check prove; otherwise they are executed symbolically too.',
]

from checks.ecc import *
from checks import e01

TOP = 0x1ae


def mul_stub(I, ins, eqn):
  a, b = in_rows(ins[0]), in_rows(ins[1])
  if len(b) == 1 and len(a) > 1:
    b = b * len(a)
  out = []
  for x, y in zip(a, b):
    out.append(split(atom(T.mul(num(x), num(y))), 48))
  return out_rows(out, tuple(eqn.outvars[0].aval.shape))


def shift_stub(I, ins, eqn):
  a, b = in_rows(ins[0]), in_rows(ins[1])
  if any(T.hi_(x[-1]) > 3 for x in a):
    return None
  out = []
  for x in a:
    d = T.floordiv(T.mul(atom(num(x)), num(b[0])), 1 << 760)
    out.append(split(d, 24))
  return out_rows(out, tuple(eqn.outvars[0].aval.shape))


def sub_stub(I, ins, eqn):
  a, b = in_rows(ins[0]), in_rows(ins[1])
  out = []
  for x, y in zip(a, b):
    d = T.sub(atom(num(x)), atom(num(y)))
    if T.hi_(x[-1]) > 3 or not (T.lo_(d) >= 0 or I.prune(T.b_not(T.ge(d, 0)))):
      return None
    if isinstance(d, T.Sym):
      hi = d.hi
      if hi >= 2 * P377 and I.prune(T.ge(d, 2 * P377)):
        hi = 2 * P377 - 1  # a proven bound, which later steps can use
      d = T.mk(d.p, max(0, d.lo), hi)
    out.append(split(d, 48))
  return out_rows(out, tuple(eqn.outvars[0].aval.shape))


def cond_stub(I, ins, eqn):
  out = []
  for x in in_rows(ins[0]):
    A = atom(num(x))
    c = T.ge(A, P377)
    out.append(split(T.sub(A, T.mul(c, P377)), 24))
  return out_rows(out, tuple(eqn.outvars[0].aval.shape))


def contracts(b):
  return [
      J.Contract('mul', lambda x, y: ff.mul_2u16(x, y),
                 [((b, 24), U16)] * 2, mul_stub),
      J.Contract('mul by a constant',
                 lambda x, y: ff.mul_2u16(x, y, vmap_axes=(0, None)),
                 [((b, 24), U16), ((24,), U16)], mul_stub),
      J.Contract('mul and shift', lambda x, y: ff.mul_shift_2u16x2x1(x, y),
                 [((b, 48), U16), ((24,), U16)], shift_stub),
      J.Contract('sub', lambda x, y: ff.sub_2u16(x, y, chunk_num_u16=48),
                 [((b, 48), U16)] * 2, sub_stub),
      J.Contract('cond sub', lambda x: ff.cond_sub_mod_u16(x),
                 [((b, 24), U16)], cond_stub),
  ]


def residue_goals(ins_val, out, batch):
  g = []
  if out.shape != (batch, 24):
    return [('shape', smt.FALSE)]
  for r, (x, row) in enumerate(zip(ins_val, rows(out))):
    c = num(row)
    g += [(f'row {r} limb {i}', smt.In(v, 0, 65535))
          for i, v in enumerate(row)]
    g.append((f'row {r} below p', smt.In(c, 0, P377 - 1)))
    g.append((f'row {r} congruent', smt.Cong(c, x, P377)))
  return g


def mod_mul(batch):
  def goals(ins, outs):
    return residue_goals([atom(T.mul(num(a), num(b))) for a, b in
                          zip(rows(ins[0]), rows(ins[1]))], outs[0], batch)

  return Obl(f'mod_mul_barrett_2u16 x{batch}',
             lambda a, b: ff.mod_mul_barrett_2u16(a, b),
             lambda: [limbs('a', (batch, 24), TOP),
                      limbs('b', (batch, 24), TOP)], goals,
             contracts=contracts(batch),
             encoded=[ff.mod_mul_barrett_2u16],
             bounds=f'operands up to {TOP:#x}ff..., batch {batch}')


def reduction(batch):
  def goals(ins, outs):
    return residue_goals([atom(num(a)) for a in rows(ins[0])], outs[0], batch)

  return Obl(f'barrett_reduction_u16x2 x{batch}',
             lambda x: ff.barrett_reduction_u16x2(x),
             lambda: [limbs('x', (batch, 48), 3)], goals,
             contracts=contracts(batch), encoded=[ff.barrett_reduction_u16x2],
             bounds=f'every value below 2^754, batch {batch}')


def mul_shift(batch):
  mu = (1 << 760) // P377

  def call(x, m):
    return ff.mul_shift_2u16x2x1(x, m)

  def inputs():
    return [limbs('x', (batch, 48), 3, chunk=8),
            const(np.array(e01.digits(mu, 24), U16))]

  def goals(ins, outs):
    g = []
    if outs[0].shape != (batch, 24):
      return [('shape', smt.FALSE)]
    for r, (x, row) in enumerate(zip(rows(ins[0]), rows(outs[0]))):
      d = T.sub(T.mul(num(x), mu), T.mul(num(row), 1 << 760))
      g += [(f'row {r} limb {i}', smt.In(v, 0, 65535))
            for i, v in enumerate(row)]
      g.append((f'row {r} quotient', smt.In(d, 0, (1 << 760) - 1)))
    return g

  return Obl(f'mul_shift_2u16x2x1 x{batch}', call, inputs, goals,
             encoded=[ff.mul_shift_2u16x2x1, ff.conv_1d_2u16xn, ff.rechunkify],
             bounds=f'every x below 2^754 times the Barrett constant, '
             f'batch {batch}')


def constants():
  """The published constants the library works with."""
  def call(x):
    return x

  def goals(ins, outs):
    return [
        ('modulus', smt.Eq(num(util.MODULUS_377_INT_CHUNK), P377)),
        ('mu', smt.Eq(num(util.MU_377_INT_CHUNK), (1 << 760) // P377)),
        ('modulus integer', smt.Eq(util.MODULUS_377_INT, P377)),
    ]
  return Obl('constants', call, lambda: [varr('x', (1,), U16)], goals,
             bounds='the default parameters')


def obligations(tier):
  return [
      constants(),
      e01.mul(24, 1, U16, default=True), e01.mul(24, 2, U16, default=True),
      e01.mul(24, 1, U16, (0, None)), e01.mul(24, 2, U16, (0, None)),
      mul_shift(1), mul_shift(2),
      e01.sub(48, 1, top=3), e01.sub(48, 2, top=3),
      e01.cond_sub_mod(1, below=True), e01.cond_sub_mod(1, below=False),
      e01.cond_sub_mod(2, below=True), e01.cond_sub_mod(2, below=False),
      reduction(1), reduction(2), mod_mul(1), mod_mul(2),
  ]
