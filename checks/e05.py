"""E05: conversions between integers and limb or residue arrays."""
JOBS = 8
ASSUMPTIONS = [
    'Widths, list lengths and moduli are the listed ones; every integer that '
    'fits (and, for refusals, every one up to two limbs too long) is covered.',
]

from checks.ecc import *
from jaxite.jaxite_ec.algorithm import util as autil
from jv import pysym as P

CTX = P.PyCtx(lambda: [util, autil])
MODS = [int(m) for m in util.MODULI]
MM = math.prod(MODS)


def flat(outs):
  return [v for o in outs for v in o.x.ravel()]


def eqs(outs, want, label=''):
  got = flat(outs)
  if len(got) != len(want):
    return [(f'{label} count', smt.FALSE)]
  return [(f'{label} {i}', smt.Eq(a, b))
          for i, (a, b) in enumerate(zip(got, want))]


def o(name, call, inputs, goals, encoded, bounds, **kw):
  return Obl(name, call, inputs, goals, mode='py', pyctx=CTX, max_paths=200,
             encoded=encoded, bounds=bounds, **kw)


FN = {
    'util.int_to_array': lambda x, b, n: util.int_to_array(
        x, b, DT[b], array_size=n),
    'util.int_to_precomputed_array': lambda x, b, n:
        util.int_to_precomputed_array(x, b, DT[b], array_size=n),
    'algorithm.int_to_array': lambda x, b, n: autil.int_to_array(x, b, n),
}
DT = {8: U8, 16: U16, 32: U32, 64: U64}


def to_limbs(fn, base, n):
  """Limbs of x, and back."""
  f = FN[fn]

  def call(x):
    a = f(x, base, n)
    mod = autil if fn.startswith('alg') else util
    return a, mod.array_to_int(a, base)

  def goals(ins, outs):
    x = ins[0].x[()]
    got = flat(outs)
    if len(got) != n + 1:
      return [('count', smt.FALSE)]
    return ([(f'limb {i}', smt.Eq(v, d)) for i, (v, d) in
             enumerate(zip(got, split(x, n, base)))]
            + [('round trip', smt.Eq(got[n], x))])

  return o(f'{fn} base {base} x{n}', call,
           lambda: [P.pvar('x', (), 0, (1 << (base * n)) - 1)], goals,
           [util.int_to_array, util.array_to_int, autil.int_to_array,
            util.int_to_precomputed_array, autil.array_to_int],
           f'every integer below 2^{base * n}')


def defaults(n=None):
  def call(x):
    return (util.int_to_array(x), util.int_to_precomputed_array(x),
            util.jax_point_pack_to_int_point(util.int_point_to_jax_point_pack(
                [x, 5])))

  def goals(ins, outs):
    x = ins[0].x[()]
    d = split(x, 24)
    return eqs(outs, d + d + [x, 5])
  return o('default width', call, lambda: [P.pvar('x', (), 0, (1 << 384) - 1)],
           goals, [util.int_point_to_jax_point_pack,
                   util.jax_point_pack_to_int_point],
           'every integer below 2^384')


def refuse(fn, base, n):
  """Integers that do not fit are refused, not truncated."""
  f = FN[fn]

  def call(x):
    return f(x, base, n)

  return o(f'{fn} base {base} x{n} refuses', call,
           lambda: [P.pvar('x', (), 1 << (base * n),
                           (1 << (base * (n + 2))) - 1)],
           lambda ins, outs: [('a value that does not fit is refused',
                               smt.FALSE)],
           [util.int_to_array], f'2^{base * n} <= x < 2^{base * (n + 2)}',
           raises=(AssertionError, ValueError, OverflowError),
           on_raise=lambda ins, e: [])


def from_limbs(mod, base, n):
  def call(a):
    dt = DT[base]
    return mod.array_to_int(P.jarr(a, dt) if mod is util else P.arr(a, dt),
                            base)

  return o(f'{mod.__name__.split(".", 1)[1]}.array_to_int base {base} x{n}',
           call, lambda: [P.pvar('a', (n,), 0, (1 << base) - 1)],
           lambda ins, outs: eqs(outs, [num(list(ins[0].x), base)]),
           [mod.array_to_int], f'every array of {n} limbs of {base} bits')


def lists(k, n):
  """List conversions, integer by integer and in order."""
  def call(xs):
    xs = P.lst(xs)
    a = util.int_list_to_array(xs, 16, n)
    b = autil.int_list_to_array(xs, 16, n)
    return (a, b, util.array_to_int_list(a, 16), list(a.shape), list(b.shape))

  def goals(ins, outs):
    xs = list(ins[0].x)
    d = [v for x in xs for v in split(x, n)]
    return eqs(outs, d + d + xs + [k, n] + [k, n])
  return o(f'lists of {k} x{n}', call,
           lambda: [P.pvar('x', (k,), 0, (1 << (16 * n)) - 1)], goals,
           [util.int_list_to_array, util.array_to_int_list,
            autil.int_list_to_array], f'{k} integers of {n} limbs')


def points(k, c, n):
  """Batches of points: coordinate-major arrays and back."""
  def call(xs):
    pts = P.lst(xs)
    a = util.int_point_batch_to_jax_point_pack(pts, 16, n)
    return a, list(a.shape), util.jax_point_pack_to_int_point_batch(a)

  def goals(ins, outs):
    x = ins[0].x
    d = [v for j in range(c) for i in range(k) for v in split(x[i, j], n)]
    return eqs(outs, d + [c, k, n] + list(x.ravel()))
  return o(f'points {k}x{c}x{n}', call,
           lambda: [P.pvar('x', (k, c), 0, (1 << (16 * n)) - 1)], goals,
           [util.int_point_batch_to_jax_point_pack,
            util.jax_point_pack_to_int_point_batch,
            util.int_point_to_jax_point_pack],
           f'{k} points of {c} coordinates of {n} limbs')


def one_wide(k, c, r, s):
  """The same at full width, one coordinate free."""
  def call(x):
    pts = [[100 * i + j for j in range(c)] for i in range(k)]
    pts[r][s] = x
    a = util.int_point_batch_to_jax_point_pack(pts)
    l = util.int_list_to_array([7, x, 9])
    return (a, util.jax_point_pack_to_int_point_batch(a), l,
            util.array_to_int_list(l, 16))

  def goals(ins, outs):
    x = ins[0].x[()]
    pts = [[100 * i + j for j in range(c)] for i in range(k)]
    pts[r][s] = x
    d = [v for j in range(c) for i in range(k) for v in split(pts[i][j], 24)]
    l = [v for y in (7, x, 9) for v in split(y, 24)]
    return eqs(outs, d + [v for p in pts for v in p] + l + [7, x, 9])
  return o(f'points {k}x{c}, coordinate {r},{s} of full width', call,
           lambda: [P.pvar('x', (), 0, (1 << 384) - 1)], goals,
           [util.int_point_batch_to_jax_point_pack],
           'every integer below 2^384 in that place')


def rns(shape):
  """Residue conversions of the library's moduli."""
  k = int(np.prod(shape, dtype=int)) if shape else 1

  def call(xs):
    if shape == ():
      r = util.int_to_array_rns(xs)
      return r, util.array_rns_to_int(r)
    v = P.lst(xs)
    if len(shape) == 1:
      a = util.int_list_to_array_rns(v)
      b = util.int_point_to_jax_rns_point_pack(v)
      return (a, b, util.array_rns_to_int_list(a),
              util.jax_rns_point_pack_to_int_point(b))
    a = util.int_point_batch_to_jax_rns_point_pack(v)
    return a, list(a.shape), util.jax_rns_point_pack_to_int_point_batch(a)

  def goals(ins, outs):
    x = ins[0].x
    res = lambda v: [T.mod(v, m) for m in MODS]
    if shape == ():
      return eqs(outs, res(x[()]) + [x[()]])
    if len(shape) == 1:
      d = [r for v in x for r in res(v)]
      return eqs(outs, d + d + list(x) * 2)
    d = [r for j in range(shape[1]) for i in range(shape[0])
         for r in res(x[i, j])]
    return eqs(outs, d + [shape[1], shape[0], len(MODS)] + list(x.ravel()))

  return o(f'residues {shape}', call,
           lambda: [P.pvar('x', shape, 0, MM - 1)], goals,
           [util.int_to_array_rns, util.array_rns_to_int,
            util.int_list_to_array_rns, util.array_rns_to_int_list,
            util.int_point_to_jax_rns_point_pack,
            util.jax_rns_point_pack_to_int_point,
            util.int_point_batch_to_jax_rns_point_pack,
            util.jax_rns_point_pack_to_int_point_batch],
           f'every integer below the product of the moduli, shape {shape}')


def reconstruct(mods):
  """Residue rows that are not necessarily reduced."""
  m = math.prod(mods)

  def call(r):
    pre = util.rns_precompute(mods)
    return util.rns_reconstruct(P.lst(r), mods, pre), util.total_modulus(mods)

  def goals(ins, outs):
    g = eqs(outs[1:], [m])
    v = outs[0].x[()]
    for x, q in zip(ins[0].x, mods):
      g.append((f'residue modulo {q}', smt.Cong(v, x, q)))
    return g + [('reduced', smt.In(v, 0, m - 1))]
  return o(f'reconstruct {mods}'[:60], call,
           lambda: [P.pvar('r', (len(mods),), 0, 65535)], goals,
           [util.rns_precompute, util.rns_reconstruct, util.total_modulus],
           f'every 16-bit residue row of {len(mods)} moduli')


def to_rns(mods):
  m = math.prod(mods)

  def call(x):
    pre = util.rns_icrt_factors_compute(m, mods)
    r = util.to_rns(x, mods)
    return r, util.rns_reconstruct(r, mods, pre)

  def goals(ins, outs):
    x = ins[0].x[()]
    return eqs(outs, [T.mod(x, q) for q in mods] + [x])
  return o(f'to_rns {mods}'[:60], call, lambda: [P.pvar('x', (), 0, m - 1)],
           goals, [util.to_rns, util.rns_icrt_factors_compute],
           'every integer below the product')


def moduli_search(prec, top):
  """find_moduli: coprime moduli whose product reaches the target."""
  def call(t):
    m, c = util.find_moduli(t, prec)
    return list(m), list(c)

  def goals(ins, outs):
    got = [int(v) for v in flat(outs)]
    k = len(got) // 2
    ms, off = got[:k], got[k:]
    ok = lambda c: smt.TRUE if c else smt.FALSE
    g = [('pairwise coprime', ok(math.lcm(*ms) == math.prod(ms))),
         ('values below the target are representable',
          smt.Ge(math.prod(ms), ins[0].x[()]))]
    for m, c in zip(ms, off):
      g.append((f'{m} has offset {c}', ok(
          m == 2**prec - c or 2 * m == 2**prec - c)))
    return g
  return o(f'find_moduli precision {prec}', call,
           lambda: [P.pvar('t', (), 1, top)], goals, [util.find_moduli],
           f'every target up to {top.bit_length()} bits')


def obligations(tier):
  obs = [defaults()]
  for fn in FN:
    cfg = [(16, 24), (16, 25), (8, 48), (8, 3), (32, 12)]
    if fn.startswith('alg'):
      cfg += [(64, 6)]
    obs += [to_limbs(fn, b, n) for b, n in cfg]
    obs += [refuse(fn, 16, 3), refuse(fn, 8, 2), refuse(fn, 16, 24)]
  obs += [from_limbs(util, 16, 24), from_limbs(util, 8, 48),
          from_limbs(util, 32, 12), from_limbs(autil, 16, 25),
          from_limbs(autil, 8, 48), from_limbs(autil, 32, 12),
          from_limbs(autil, 64, 6)]
  obs += [lists(2, 3), lists(3, 2), points(2, 2, 1), points(1, 4, 1),
          points(3, 2, 1)]
  obs += [one_wide(2, 4, 0, 0), one_wide(2, 4, 1, 2), one_wide(3, 3, 2, 1)]
  obs += [rns(()), rns((2,)), rns((3,)), rns((2, 3)), rns((1, 4)),
          rns((3, 1))]
  sets = [(3, 5, 7), (65536, 65535, 65533), (2, 9, 25, 49, 121), tuple(MODS)]
  obs += [reconstruct(s) for s in sets] + [to_rns(s) for s in sets]
  obs += [moduli_search(8, 1 << 46), moduli_search(16, 1 << 400)]
  return obs
