"""E06: XYZZ point formulas."""
JOBS = 8
ASSUMPTIONS = [
    'Every affine pair (x, y) of field elements and every scaling z, so every '
    'curve point; coordinates reduced (Barrett), up to 2^16 p (lazy) or '
    'representing values up to the stated multiple of p (residues). Batch '
    'sizes are the listed ones.',
    'Field operations inside the formulas are replaced by their results '
    'modulo p and their ranges, where the traced call is the very one other '
    'obligations of this check prove to behave so.',
]

from checks.points import *
from jaxite.jaxite_ec import elliptic_curve as ec


def add_law(v1, v2, out):
  """Goals for one row: out is the affine chord sum."""
  (x1, y1, z1), (x2, y2, z2) = [[fp(c) for c in v] for v in (v1, v2)]
  X, Y, ZZ, ZZZ = [o[0] for o in out]
  d = pmod(T.sub(x2, x1))
  e = pmod(T.sub(y2, y1))
  d2, d3 = mulp(d, d), mulp(d, d, d)
  N = pmod(T.sub(mulp(e, e), mulp(T.add(x1, x2), d2)))  # x3 * d^2
  Ny = pmod(T.sub(mulp(e, T.sub(mulp(x1, d2), N)), mulp(y1, d3)))  # y3 * d^3
  return [law('x', mulp(X, d2), mulp(ZZ, N)),
          law('y', mulp(Y, d3), mulp(ZZZ, Ny)),
          law('zz^3 = zzz^2', mulp(ZZ, ZZ, ZZ), mulp(ZZZ, ZZZ)),
          nonzero('finite unless the x agree', ZZ, [z1, z2], d)]


def dbl_law(v1, out):
  x, y, z = [fp(c) for c in v1]
  X, Y, ZZ, ZZZ = [o[0] for o in out]
  m = pmod(T.mul(mulp(x, x), 3))
  u = pmod(T.mul(y, 2))
  u2, u3 = mulp(u, u), mulp(u, u, u)
  N = pmod(T.sub(mulp(m, m), T.mul(mulp(x, u2), 2)))  # x3 * u^2
  Ny = pmod(T.sub(mulp(m, T.sub(mulp(x, u2), N)), mulp(y, u3)))
  return [law('x', mulp(X, u2), mulp(ZZ, N)),
          law('y', mulp(Y, u3), mulp(ZZZ, Ny)),
          law('zz^3 = zzz^2', mulp(ZZ, ZZ, ZZ), mulp(ZZZ, ZZZ)),
          nonzero('finite unless y is zero', ZZ, [z], y)]


def ranges(out, his):
  return [(f'coordinate {"x y zz zzz".split()[j]} stays in range',
           smt.TRUE if 0 <= lo and hi <= his[j] else smt.FALSE)
          for j, (_, lo, hi) in enumerate(out)]


def point_op(name, fn, npts, kind, b, first=False, ofirst=False, split=False):
  """kind: barrett | lazy | rns."""
  rns = kind == 'rns'
  n = {'barrett': 24, 'lazy': 25, 'rns': NM}[kind]
  his = {'barrett': [P377 - 1] * 4, 'lazy': [PS - 1] * 4,
         'rns': [7 * B, 3 * B, B, B]}[kind]

  def inputs():
    enc = rns_enc(his) if rns else limb_enc(n, his)
    pts = [Point(str(i + 1), b) for i in range(npts)]
    return ([coords(p, xyzz, enc, first) for p in pts]
            + [p.arr() for p in pts])

  def call(*args):
    a = args[:npts]
    if split:
      a = [c for p in a for c in p]
    return fn(*a)

  def goals(ins, outs):
    shape = (b, 4, n) if ofirst else (4, b, n)
    if outs[0].shape != shape or len(outs) != 1:
      return [('shape', smt.FALSE)]
    vs = [spec_vals(a) for a in ins[npts:]]
    g = []
    for r, out in enumerate(out_vals(outs[0], b, rns, ofirst)):
      gs = (add_law(vs[0][r], vs[1][r], out) if npts == 2
            else dbl_law(vs[0][r], out))
      gs += ranges(out, his)
      g += [(f'row {r} {l}', f) for l, f in gs]
    if not rns:
      g += [(f'limb {i}', smt.In(v, 0, 65535))
            for i, v in enumerate(outs[0].x.ravel())]
    return g

  con = {'barrett': barrett_contracts, 'lazy': lazy_contracts,
         'rns': rns_contracts}[kind](b)
  return Obl(f'{name} x{b}', call, inputs, goals, contracts=con,
             encoded=[fn], validate=kind == 'barrett',
             bounds=f'every pair of points and scalings, coordinates up to '
             f'{[h // P377 + 1 for h in his]} times p, batch {b}')


S, U = U16, U32


def obligations(tier):
  ops = []
  bs = (1, 2) if tier == 'quick' else (1, 2, 3)
  for b in bs:
    ops += [
        point_op('padd_barrett_xyzz_pack', ec.padd_barrett_xyzz_pack, 2,
                 'barrett', b),
        point_op('pdul_barrett_xyzz_pack', ec.pdul_barrett_xyzz_pack, 1,
                 'barrett', b),
        point_op('padd_lazy_xyzz_pack', ec.padd_lazy_xyzz_pack, 2, 'lazy', b),
        point_op('pdul_lazy_xyzz_pack', ec.pdul_lazy_xyzz_pack, 1, 'lazy', b),
        point_op('padd_rns_xyzz_pack', ec.padd_rns_xyzz_pack, 2, 'rns', b),
        point_op('pdul_rns_xyzz_pack', ec.pdul_rns_xyzz_pack, 1, 'rns', b),
    ]
    ops += barrett_parts(b) + lazy_parts(b)
    ops += rns_parts(b, (1, 3, 4, 6),
                     [(S, S), (S, S, S), (S, U), (S, U, U), (S, U, U, U),
                      (S, U, S, S), (S, U, S, S, S)])
  b = 2
  for tr, of in (((0, 1, 2), False), ((1, 0, 2), True)):
    ops += [
        point_op(f'padd_barrett_xyzz_pack_batch_first {tr}',
                 lambda p, q, tr=tr: ec.padd_barrett_xyzz_pack_batch_first(
                     p, q, tr), 2, 'barrett', b, True, of),
        point_op(f'pdul_barrett_xyzz_pack_batch_first {tr}',
                 lambda p, tr=tr: ec.pdul_barrett_xyzz_pack_batch_first(p, tr),
                 1, 'barrett', b, True, of)]
  ops += [point_op('padd_barret_xyzz', ec.padd_barret_xyzz, 2, 'barrett', 1,
                   split=True),
          point_op('pdul_rns_xyzz', ec.pdul_rns_xyzz, 1, 'rns', 1, split=True)]
  return ops
