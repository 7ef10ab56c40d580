"""E07: twisted Edwards point formulas."""
JOBS = 8
ASSUMPTIONS = [
    'Every affine pair (x, y) of field elements and every scaling z, so every '
    'curve point; coordinates up to 2^16 p (lazy) or representing values up to '
    'the stated multiple of p (residues). Batch sizes are the listed ones.',
    'Doubling is specified with y^2 - x^2 in place of 1 + d x^2 y^2, which are '
    'equal on the curve.',
    'Field operations inside the formulas are replaced by their results '
    'modulo p and their ranges, where the traced call is the very one other '
    'obligations of this check prove to behave so.',
]

from checks.points import *
from jaxite.jaxite_ec import elliptic_curve as ec

D = int(util.TWIST_D_INT)


def add_law(v1, v2, out):
  (x1, y1, z1), (x2, y2, z2) = [[fp(c) for c in v] for v in (v1, v2)]
  X, Y, Z, W = [o[0] for o in out]
  t = mulp(D, x1, x2, y1, y2)
  plus, minus = pmod(T.add(1, t)), pmod(T.sub(1, t))
  return [law('x', mulp(X, plus),
              mulp(Z, T.add(mulp(x1, y2), mulp(x2, y1)))),
          law('y', mulp(Y, minus),
              mulp(Z, T.add(mulp(y1, y2), mulp(x1, x2)))),
          law('t = xy/z', mulp(W, Z), mulp(X, Y)),
          nonzero('finite', Z, [z1, z2], mulp(plus, minus))]


def dbl_law(v1, out):
  x, y, z = [fp(c) for c in v1]
  X, Y, Z, W = [o[0] for o in out]
  xx, yy = mulp(x, x), mulp(y, y)
  plus = pmod(T.sub(yy, xx))
  minus = pmod(T.sub(2, plus))
  return [law('x', mulp(X, plus), mulp(Z, 2, x, y)),
          law('y', mulp(Y, minus), mulp(Z, T.add(xx, yy))),
          law('t = xy/z', mulp(W, Z), mulp(X, Y)),
          nonzero('finite', Z, [z], mulp(plus, minus))]


def neg_law(v1, out):
  x, y, z = [fp(c) for c in v1]
  X, Y, Z, W = [o[0] for o in out]
  return [law('x', X, mulp(T.sub(0, x), Z)), law('y', Y, mulp(y, Z)),
          law('t = xy/z', mulp(W, Z), mulp(X, Y)),
          nonzero('finite', Z, [], z)]


def point_op(name, fn, law_, kind, b, split=False):
  rns = kind == 'rns'
  npts = 2 if law_ is add_law else 1
  n = NM if rns else 25
  his = [B] * 4 if rns else [PS] * 4

  def inputs():
    enc = rns_enc(his) if rns else limb_enc(n, his)
    pts = [Point(str(i + 1), b) for i in range(npts)]
    return [coords(p, edwards, enc) for p in pts] + [p.arr() for p in pts]

  def call(*args):
    a = args[:npts]
    if split:
      a = [c for p in a for c in p]
    return fn(*a)

  def goals(ins, outs):
    if outs[0].shape != (4, b, n) or len(outs) != 1:
      return [('shape', smt.FALSE)]
    vs = [spec_vals(a) for a in ins[npts:]]
    g = []
    for r, out in enumerate(out_vals(outs[0], b, rns)):
      gs = law_(*[v[r] for v in vs], out)
      gs += [(f'coordinate {"xyzt"[j]} stays in range',
              smt.TRUE if 0 <= lo and hi <= his[j] else smt.FALSE)
             for j, (_, lo, hi) in enumerate(out)]
      g += [(f'row {r} {l}', f) for l, f in gs]
    if not rns:
      g += [(f'limb {i}', smt.In(v, 0, 65535))
            for i, v in enumerate(outs[0].x.ravel())]
    return g

  con = (rns_contracts if rns else lazy_contracts)(b)
  return Obl(f'{name} x{b}', call, inputs, goals, contracts=con,
             encoded=[fn], validate=False,
             bounds='every pair of points and scalings, coordinates up to '
             f'{[h // P377 for h in his]} times p, batch {b}')


def constants():
  """The twisted curve is the image of y^2 = x^3 + 1."""
  def goals(ins, outs):
    return [
        ('d', smt.Cong(4 * (D - 1)**2, 3 * (D + 1)**2, P377)),
        ('d reduced', smt.In(D, 0, P377 - 1)),
        ('d chunks', smt.Cong(num(util.TWIST_D_INT_CHUNK), D, P377)),
        ('-1 is a square', smt.Eq(pow(-1, (P377 - 1) // 2, P377), 1)),
    ]
  return Obl('constants', lambda x: x, lambda: [varr('x', (1,), U16)], goals,
             bounds='the default parameters')


def neutral():
  """The zero point is (0, 1) with z = 1."""
  def goals(ins, outs):
    if outs[0].shape != (4, NM):
      return [('shape', smt.FALSE)]
    return [(f'coordinate {j}', smt.Eq(e04.crt(outs[0].x[j]), (0, 1, 1, 0)[j]))
            for j in range(4)]
  return Obl('rns_twist_zero', lambda x: ec.rns_twist_zero(),
             lambda: [varr('x', (1,), U16)], goals,
             encoded=[ec.rns_twist_zero], bounds='constant')


S, U = U16, U32


def obligations(tier):
  ops = [constants(), neutral()]
  for b in ((1, 2) if tier == 'quick' else (1, 2, 3)):
    ops += [
        point_op('padd_lazy_twisted_pack', ec.padd_lazy_twisted_pack, add_law,
                 'lazy', b),
        point_op('pdul_lazy_twisted_pack', ec.pdul_lazy_twisted_pack, dbl_law,
                 'lazy', b),
        point_op('pneg_lazy_twisted_pack', ec.pneg_lazy_twisted_pack, neg_law,
                 'lazy', b),
        point_op('padd_rns_twisted_pack', ec.padd_rns_twisted_pack, add_law,
                 'rns', b),
        point_op('pdul_rns_twisted_pack', ec.pdul_rns_twisted_pack, dbl_law,
                 'rns', b),
    ]
    ops += lazy_parts(b)
    ops += [const_sub(b, lambda x, y: ff.cond_sub_2u16(x, y, **EXT),
                      'cond_sub_2u16'),
            const_sub(b, lambda x, y: ff.sub_2u16(
                x, y, chunk_num_u16=util.U16_EXT_CHUNK_NUM), 'sub_2u16')]
    ops += rns_parts(b, (1, 2, 4), [(S, S), (S, U), (S, U, U), (U, U)])
  ops += [point_op('padd_lazy_twisted', ec.padd_lazy_twisted, add_law, 'lazy',
                   1, split=True)]
  return ops
