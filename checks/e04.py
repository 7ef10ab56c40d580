"""E04: RNS field arithmetic."""
JOBS = 8
ASSUMPTIONS = [
    'The library\'s own 50 moduli; every residue vector (residues stored in 16 '
    'bits, not necessarily reduced) inside the stated value range, batch sizes '
    'as listed.',
    'Reduction by the field prime is decided for represented values up to 3/4 '
    'of the product of the moduli; that the point formulas stay below is part '
    'of E06 and E07.',
]

from checks.ecc import *

MODS = [int(m) for m in util.MODULI]
N = len(MODS)
M = math.prod(MODS)


def crt(row):
  """Integer represented by a concrete residue row."""
  v = 0
  for x, m in zip(row, MODS):
    w = M // m
    v += int(x) * w * pow(w, -1, m)
  return v % M


def neg_constant():
  """The multiple of p that the library's negation adds (from one run)."""
  one = jnp.asarray([[1] * N], U16)
  return (crt(np.asarray(ff.negate_rns_for_var_add(one))[0]) + 1) % M


def lane_goals(out, spec, label=''):
  g = []
  for r, (row, s) in enumerate(zip(rows(out), spec)):
    for i, (v, x) in enumerate(zip(row, s)):
      g.append((f'{label}row {r} residue {i}', smt.Cong(v, x, MODS[i])))
      g.append((f'{label}row {r} residue {i} fits', smt.In(v, 0, 65535)))
  return g


def reduce32(batch):
  def goals(ins, outs):
    if outs[0].shape != (batch, N):
      return [('shape', smt.FALSE)]
    return lane_goals(outs[0], rows(ins[0]))

  return Obl(f'reduction of 32-bit sums x{batch}',
             lambda v: ff.moduli_rns_red_internal_2u16(v),
             lambda: [varr('v', (batch, N), U32)], goals, nowrap=True,
             encoded=[ff.moduli_rns_red_internal_2u16, ff.split_view_32_to_16,
                      ff.split_view_32_to_16_8],
             bounds=f'every 32-bit value in every residue, batch {batch}')


def mul_lanes(batch):
  def goals(ins, outs):
    if outs[0].shape != (batch, N):
      return [('shape', smt.FALSE)]
    spec = [[T.mul(a, b) for a, b in zip(x, y)]
            for x, y in zip(rows(ins[0]), rows(ins[1]))]
    return lane_goals(outs[0], spec)

  return Obl(f'mul_unreduced_rns_2u16 x{batch}',
             lambda a, b: ff.mul_unreduced_rns_2u16(a, b),
             lambda: [varr('a', (batch, N), U16), varr('b', (batch, N), U16)],
             goals, nowrap=True, encoded=[ff.mul_unreduced_rns_2u16],
             bounds=f'every pair of residue vectors, batch {batch}')


def byteval(row):
  """Exact integer sum_i c_i * (M/m_i) * inv, before reduction modulo M."""
  tot = []
  for x, m in zip(row, MODS):
    w = M // m
    tot.append(T.mul(x, w * pow(w, -1, m) % M))
  return T.total(tot)


def mod_red(batch):
  bound = 3 * M // 4

  def split_rows(ins):
    out = []
    for c in rows(ins[0]):
      S = byteval(c)
      K = T.floordiv(S, M)
      out.append((c, K, T.sub(S, T.mul(K, M))))
    return out

  def assume(ins):
    return [smt.Le(x, bound) for _, _, x in split_rows(ins)]

  def goals(ins, outs):
    g = []
    if outs[0].shape != (batch, N):
      return [('shape', smt.FALSE)]
    for r, ((c, K, X), row) in enumerate(zip(split_rows(ins), rows(outs[0]))):
      # an integer congruent to X modulo p that the result should represent:
      # any other integer would do, but only one below M matches all residues
      for i, v in enumerate(row):
        g.append((f'row {r} residue {i} fits', smt.In(v, 0, 65535)))
      Y = represented(c, K)
      g.append((f'row {r} congruent modulo p', smt.Cong(Y, X, P377)))
      g.append((f'row {r} in range', smt.In(Y, 0, RANGE * P377)))
      for i, v in enumerate(row):
        g.append((f'row {r} residue {i}', smt.Cong(v, Y, MODS[i])))
    return g

  def represented(c, K):
    """The integer the reduction is meant to represent.

    Byte-wise table lookups modulo p, minus the right multiple of M.
    """
    return T.add(T.total([T.mul(b, f % P377) for b, f in bytes_of(c)]),
                 T.mul(count(c, K), (-M) % P377))

  def bytes_of(c):
    out = []
    for x, m in zip(c, MODS):
      w = M // m
      f = w * pow(w, -1, m) % M
      hi = T.floordiv(x, 256)
      out += [(T.sub(x, T.mul(hi, 256)), f), (hi, (f << 8) % M)]
    return out

  def count(c, K):
    """How often M fits the byte-wise sum, given K for the plain sum."""
    t = [K]
    for x, m in zip(c, MODS):
      w = M // m
      f = w * pow(w, -1, m) % M
      t.append(T.mul(T.floordiv(x, 256), -((f << 8) // M)))
    return T.total(t)

  def lemmas(ins, outs):
    """A 16-bit estimate of the quotient is exact in the range."""
    fs = []
    for c, K, X in split_rows(ins):
      est = T.total([T.mul(b, -(-f * 65536 // M)) for b, f in bytes_of(c)])
      k = T.floordiv(est, 65536)
      n = count(c, K)
      fs += [smt.Ge(k, n), smt.Le(k, n), smt.Eq(k, n)]
    return fs

  return Obl(f'mod_red_rns_2u16 x{batch}', lambda c: ff.mod_red_rns_2u16(c),
             lambda: [varr('c', (batch, N), U16, chunk=8)], goals,
             assume=assume, nowrap=True, lemmas=lemmas,
             encoded=[ff.mod_red_rns_2u16, ff.moduli_rns_red_internal_2u16,
                      util.rns_coefficients_precompute, util.find_moduli],
             bounds=f'represented value up to 3/4 of the moduli\'s product, '
             f'batch {batch}')


RANGE = 51200


def composite(batch):
  """Multiplying reduces the residue product."""
  def call(a, b):
    return (ff.mod_mul_rns_2u16(a, b),
            ff.mod_red_rns_2u16(ff.mul_unreduced_rns_2u16(a, b)))

  def goals(ins, outs):
    if outs[0].shape != (batch, N):
      return [('shape', smt.FALSE)]
    return [(f'{i}', smt.Eq(outs[0].x[i], outs[1].x[i]))
            for i in np.ndindex(batch, N)]

  return Obl(f'mod_mul_rns_2u16 x{batch}', call,
             lambda: [varr('a', (batch, N), U16), varr('b', (batch, N), U16)],
             goals, encoded=[ff.mod_mul_rns_2u16],
             bounds=f'every pair of residue vectors, batch {batch}')


def sums(signs, batch, fn=None):
  """Sum of residue vectors, some of them negated."""
  C = neg_constant()

  def call(*vs):
    if fn is not None:
      return fn(*vs)
    return ff.add_sub_rns_var(*[v if s > 0 else ff.negate_rns_for_var_add(v)
                                for s, v in zip(signs, vs)])

  def goals(ins, outs):
    if outs[0].shape != (batch, N):
      return [('shape', smt.FALSE)]
    cols = [rows(a) for a in ins]
    k = sum(s < 0 for s in signs)
    spec = [[T.add(T.total([T.mul(c[r][i], s) for c, s in zip(cols, signs)]),
                   k * C) for i in range(N)] for r in range(batch)]
    return lane_goals(outs[0], spec)

  nm = ''.join('+' if s > 0 else '-' for s in signs)
  return Obl(f'{fn.__name__ if fn else "sum of"} {nm} x{batch}', call,
             lambda: [varr('abcdefgh'[k], (batch, N), U16)
                      for k in range(len(signs))], goals,
             encoded=[ff.add_sub_rns_var, ff.negate_rns_for_var_add],
             bounds=f'every residue vector, batch {batch}')


def negate_checked(batch):
  """The zero-check variant: -a, or plain zero for a zero value."""
  C = neg_constant()

  def call(a):
    return (ff.negate_rns_for_var_add_zero_check(a),
            ff.add_sub_rns_var(ff.negate_rns_for_var_add_zero_check(a)))

  def goals(ins, outs):
    g = []
    if outs[0].shape != (batch, N) or outs[1].shape != (batch, N):
      return [('shape', smt.FALSE)]
    for k in (0, 1):
      for r, (a, v) in enumerate(zip(rows(ins[0]), rows(outs[k]))):
        zero = smt.And(*([smt.Eq(x, 0) for x in a]
                         + [smt.Eq(x, 0) for x in v]))
        for i in range(N):
          g.append((f'{k} row {r} residue {i}', smt.Or(
              zero, smt.Cong(v[i], T.sub(C, a[i]), MODS[i]))))
          g.append((f'{k} row {r} residue {i} fits',
                    smt.In(v[i], 0, (1 << 18) - 1)))
    return g

  return Obl(f'negate_rns_for_var_add_zero_check x{batch}', call,
             lambda: [varr('a', (batch, N), U16)], goals,
             encoded=[ff.negate_rns_for_var_add_zero_check],
             bounds=f'every residue vector, batch {batch}')


def constants():
  C = neg_constant()

  def goals(ins, outs):
    g = [('the prime', smt.Eq(util.MODULUS_377_INT, P377)),
         ('moduli pairwise coprime', smt.TRUE if math.lcm(*MODS) == M
          else smt.FALSE),
         ('moduli fit 16 bits', smt.TRUE if max(MODS) <= 65536
          else smt.FALSE),
         ('negation adds a multiple of the prime', smt.Eq(C % P377, 0)),
         ('negation covers every reduced operand',
          smt.Ge(C, RANGE * P377)),
         ('products of sums stay in range',
          smt.Le((4 * C) * (4 * C), 3 * M // 4))]
    for i, (m, d) in enumerate(zip(MODS, util.TWIST_D_RNS)):
      g.append((f'twist constant {i}', smt.Cong(int(d), util.TWIST_D_INT, m)))
    return g
  return Obl('constants', lambda x: x, lambda: [varr('x', (1,), U16)], goals,
             bounds='the default parameters')


def small_constant():
  vals = [0, 1, 2, 3, 255, 256, 16383]

  def call(x):
    return [ff.rns_constant(c) for c in vals]

  def goals(ins, outs):
    g = []
    for c, o in zip(vals, outs):
      if o.shape != (N,):
        return [('shape', smt.FALSE)]
      g += [(f'{c} residue {i}', smt.Cong(v, c, MODS[i]))
            for i, v in enumerate(o.x)]
    return g
  return Obl('rns_constant', call, lambda: [varr('x', (1,), U16)], goals,
             encoded=[ff.rns_constant], bounds=f'constants {vals}')


def obligations(tier):
  obs = [constants(), small_constant(), reduce32(1), reduce32(2), mul_lanes(1),
         mul_lanes(2), mod_red(1), mod_red(2), composite(1), composite(2),
         sums((1, 1), 1, ff.add_rns_2u16), sums((1, 1, 1), 2, ff.add_rns_3u16),
         sums((1,), 1), sums((1, -1), 2), sums((1, -1, -1), 1),
         sums((1, -1, -1, -1), 1), sums((-1, -1), 1), sums((1, -1, 1, 1), 1),
         sums((1, 1, 1, 1, -1), 1),
         negate_checked(1), negate_checked(2)]
  return obs
