"""Point formulas over limb or residue arrays, reasoned about modulo p.

Field operations are replaced by their proven results (contracts). Next to each
intermediate value a polynomial over the inputs' affine coordinates and scalings
is kept, which the value is congruent to modulo p; the group law then is an
identity of such polynomials.
"""
import itertools

from checks.ecc import *
from checks import e01, e02, e03, e04

PS = P377 << 16
B = e04.RANGE * P377  # residue products represent values up to here
NM = e04.N


# ------------------------------------------------- polynomials modulo p
def pmod(t):
  """Coefficients reduced modulo p."""
  if not isinstance(t, T.Sym):
    return int(t) % P377
  d = {m: c % P377 for m, c in t.p.items() if c % P377}
  return T.mk(d) if d else 0


def table():
  """What each named atom is congruent to, as a polynomial modulo p."""
  return T.CTX.__dict__.setdefault('fp_table', {})


def rowtable():
  return T.CTX.__dict__.setdefault('row_table', {})


def fp(t):
  if not isinstance(t, T.Sym):
    return int(t) % P377
  f = table()
  out = []
  for mono, c in t.p.items():
    m = c % P377
    for a in mono:
      if not isinstance(m, T.Sym) and m == 0:
        break
      at = T.CTX.atoms[a]
      m = pmod(T.mul(m, f[a] if a in f else T.mk({(a,): 1}, at.lo, at.hi)))
    out.append(m)
  return pmod(T.total(out)) if out else 0


def note(t, poly):
  """Record that the named term t is congruent to poly modulo p."""
  if isinstance(t, T.Sym) and len(t.p) == 1:
    (mono, c), = t.p.items()
    if c == 1 and len(mono) == 1:
      table()[mono[0]] = poly
  return t


def residue(x, hi):
  """A value congruent to x modulo p and at most hi, named."""
  r = T.mod(x, P377)
  if hi >= P377:
    k = T.var(f'k{len(T.CTX.atoms)}', 0, (hi - P377 + 1) // P377)
    r = T.add(r, T.mul(k, P377))
  n = T.name(r) if isinstance(r, T.Sym) else r
  return note(n, fp(x))


def atom(x):
  """Name a term; what it is congruent to is kept."""
  if not isinstance(x, T.Sym) or len(x.p) == 1:
    return x
  return note(T.name(x), fp(x))


# ------------------------------------------------- contracts, limbs
def need(I, label, f):
  if f.op != 'true':
    I.side.append((label, f))


def _values(ins, n):
  vs = [[atom(num(r)) for r in in_rows(x)] for x in ins]
  k = max(len(v) for v in vs)
  return [v * k if len(v) == 1 else v for v in vs]


def limb_stub(fn, n):
  def stub(I, ins, eqn):
    vs = _values(ins, n)
    out = []
    for args in zip(*vs):
      r = fn(I, *args)
      if r is None:
        return None
      out.append(split(r, n))
    return out_rows(out, tuple(eqn.outvars[0].aval.shape))
  return stub


def mul_barrett(I, a, b):
  top = ((e02.TOP + 1) << 368) - 1
  need(I, 'operand within the Barrett range', smt.Le(a, top))
  need(I, 'operand within the Barrett range', smt.Le(b, top))
  return residue(T.mul(a, b), P377 - 1)


def mul_lazy(I, a, b):
  return residue(T.mul(a, b), (1 << 384) + 52 * 255 * P377)


def cond_mod(q):
  def f(I, a):
    if not isinstance(a, T.Sym):
      return a - q if a >= q else a
    c = T.ge(a, q)
    d = T.sub(a, T.mul(c, q))
    if not isinstance(d, T.Sym):
      return d
    return atom(T.mk(d.p, 0, max(q - 1 if a.hi >= q else a.hi, a.hi - q)))
  return f


def cond_diff(q):
  def f(I, a, b):
    if not isinstance(a, T.Sym) and a == q:
      need(I, 'subtrahend at most the minuend', smt.Le(b, q))
      return atom(T.sub(q, b))
    need(I, 'minuend below the modulus', smt.Le(a, q - 1))
    need(I, 'subtrahend below the modulus', smt.Le(b, q - 1))
    d = T.add(T.sub(a, b), T.mul(T.b_not(T.ge(a, b)), q))
    if not isinstance(d, T.Sym):
      return d
    return atom(T.mk(d.p, 0, q - 1))
  return f


def diff(I, a, b):
  d = T.sub(a, b)
  need(I, 'subtrahend at most the minuend', smt.Ge(d, 0))
  if isinstance(d, T.Sym):
    d = atom(T.mk(d.p, 0, d.hi))
  return d


def sum_stub(n):
  def stub(I, ins, eqn):
    vs = _values(ins, n)
    out = []
    for args in zip(*vs):
      s = T.total(list(args))
      if T.hi_(s) >= 1 << (16 * n):
        return None
      out.append(split(atom(s), n))
    return out_rows(out, tuple(eqn.outvars[0].aval.shape))
  return stub


def barrett_contracts(b):
  s = ((b, 24), U16)
  return [
      J.Contract('mod_mul', lambda x, y: ff.mod_mul_barrett_2u16(x, y), [s, s],
                 limb_stub(mul_barrett, 24)),
      J.Contract('cond_sub', lambda x, y: ff.cond_sub_2u16(x, y), [s, s],
                 limb_stub(cond_diff(P377), 24)),
      J.Contract('cond_sub_mod', lambda x: ff.cond_sub_mod_u16(x), [s],
                 limb_stub(cond_mod(P377), 24)),
  ]


EXT = dict(modulus_377_int_chunk=util.MODULUS_377_S16_INT_CHUNK,
           chunk_num_u16=util.U16_EXT_CHUNK_NUM)


def lazy_contracts(b):
  s, one = ((b, 25), U16), ((25,), U16)
  return [
      J.Contract('mod_mul', lambda x, y: ff.mod_mul_lazy_2u16(x, y), [s, s],
                 limb_stub(mul_lazy, 25)),
      J.Contract('cond_sub', lambda x, y: ff.cond_sub_2u16(x, y, **EXT),
                 [s, s], limb_stub(cond_diff(PS), 25)),
      J.Contract('cond_sub const', lambda x, y: ff.cond_sub_2u16(x, y, **EXT),
                 [one, s], limb_stub(cond_diff(PS), 25)),
      J.Contract('cond_sub_mod', lambda x: ff.cond_sub_mod_u16(x, **EXT), [s],
                 limb_stub(cond_mod(PS), 25)),
      J.Contract('sub const', lambda x, y: ff.sub_2u16(
          x, y, chunk_num_u16=util.U16_EXT_CHUNK_NUM), [one, s],
                 limb_stub(diff, 25)),
  ]


def const_sub(batch, fn, name):
  """P' minus a value of at most P'."""
  ps = np.array(e01.digits(PS, 25), U16)

  def call(b):
    return fn(jnp.asarray(ps), b)

  def assume(ins):
    return [smt.Le(num(r), PS) for r in rows(ins[0])]

  def goals(ins, outs):
    return limb_goals('difference', outs[0], 25,
                      [T.sub(PS, num(r)) for r in rows(ins[0])])

  return Obl(f'{name} of a constant x{batch}', call,
             lambda: [limbs('b', (batch, 25), PS >> 384)], goals,
             assume=assume, decide=True,
             bounds=f'every subtrahend up to 2^16 p, batch {batch}')


def barrett_parts(b):
  return [e02.constants(),
          e01.mul(24, b, U16, default=True), e01.mul(24, b, U16, (0, None)),
          e02.mul_shift(b), e01.sub(48, b, top=3), e02.mod_mul(b),
          e01.cond_sub_mod(b, below=True), e01.cond_sub_mod(b, below=False),
          e01.cond_sub(b, True), e01.cond_sub(b, False)]


def lazy_parts(b):
  return [e03.constants(), e03.mod_mul(b),
          e01.cond_sub_mod(b, 25, PS, below=True),
          e01.cond_sub_mod(b, 25, PS, below=False),
          e01.cond_sub(b, True, 25, PS), e01.cond_sub(b, False, 25, PS)]


# ------------------------------------------------- contracts, residues
def key(row):
  return tuple((tuple(sorted(v.p.items())) if isinstance(v, T.Sym) else int(v))
               for v in row)


class Rep:
  """A residue row represents an integer of known range."""

  def __init__(self, f, lo, hi):
    self.f, self.lo, self.hi = f, lo, hi


def rep(row):
  r = rowtable().get(key(row))
  if r is None and not any(isinstance(v, T.Sym) for v in row):
    v = e04.crt(row)
    r = Rep(v % P377, v, v)
  return r


def fresh(r, dt=U16):
  row = [T.var(f'r{len(T.CTX.atoms)}', 0, 65535 if dt == U16 else (1 << 17))
         for _ in range(NM)]
  rowtable()[key(row)] = r
  return row


def rns_stub(fn, dt=U16):
  def stub(I, ins, eqn):
    cols = []
    for x in ins:
      rs = [rep(r) for r in in_rows(x, U32)]
      if any(r is None for r in rs):
        raise T.Unsupported('residue row of unknown origin')
      cols.append(rs)
    k = max(len(c) for c in cols)
    cols = [c * k if len(c) == 1 else c for c in cols]
    out = [fresh(fn(I, *a), dt) for a in zip(*cols)]
    return out_rows(out, tuple(eqn.outvars[0].aval.shape))
  return stub


def rns_mul(I, a, b):
  e = (a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi)
  lo, hi = min(e), max(e)
  need(I, 'product within the range of the reduction',
       smt.TRUE if lo >= 0 and hi <= 3 * e04.M // 4 else smt.FALSE)
  return Rep(pmod(T.mul(a.f, b.f)), 0, B)


def rns_neg(I, a):
  c = e04.neg_constant()
  return Rep(pmod(T.sub(0, a.f)), c - a.hi, c - a.lo)


def rns_neg_checked(I, a):
  c = e04.neg_constant()
  return Rep(pmod(T.sub(0, a.f)), min(0, c - a.hi), c - a.lo)


def rns_sum(I, *vs):
  return Rep(pmod(T.total([v.f for v in vs])), sum(v.lo for v in vs),
             sum(v.hi for v in vs))


def rns_contracts(b, sizes=(1, 2, 3, 4, 5, 6), arity=5):
  out = []
  for k in sizes:
    s = ((k * b, NM), U16)
    out.append(J.Contract('mod_mul', lambda x, y: ff.mod_mul_rns_2u16(
        x, y, util.RNS_MAT), [s, s], rns_stub(rns_mul)))
  s = ((b, NM), U16)
  out += [
      J.Contract('negate', lambda x: ff.negate_rns_for_var_add(x), [s],
                 rns_stub(rns_neg, U32)),
      J.Contract('negate checked',
                 lambda x: ff.negate_rns_for_var_add_zero_check(x), [s],
                 rns_stub(rns_neg_checked, U32)),
      J.Contract('add 2', lambda x, y: ff.add_rns_2u16(x, y), [s, s],
                 rns_stub(rns_sum)),
      J.Contract('add 3', lambda x, y, z: ff.add_rns_3u16(x, y, z), [s, s, s],
                 rns_stub(rns_sum)),
  ]
  for n in range(1, arity + 1):
    for dts in itertools.product((U16, U32), repeat=n):
      out.append(J.Contract(
          'sum', lambda *v: ff.add_sub_rns_var(*v),
          [((b, NM), d) for d in dts], rns_stub(rns_sum)))
  return out


def addsub(dts, batch):
  """add_sub_rns_var adds lane by lane."""
  def goals(ins, outs):
    if outs[0].shape != (batch, NM):
      return [('shape', smt.FALSE)]
    cols = [rows(a) for a in ins]
    spec = [[T.total([c[r][i] for c in cols]) for i in range(NM)]
            for r in range(batch)]
    return e04.lane_goals(outs[0], spec)

  return Obl('add_sub_rns_var ' + ' '.join(np.dtype(d).name for d in dts)
             + f' x{batch}', lambda *v: ff.add_sub_rns_var(*v),
             lambda: [varr('abcdefgh'[k], (batch, NM), d, 0,
                           65535 if d == U16 else 1 << 17)
                      for k, d in enumerate(dts)], goals, nowrap=True,
             encoded=[ff.add_sub_rns_var],
             bounds='every residue vector (negated ones up to 2^17)')


def negation(batch):
  """negate_rns_for_var_add is a fixed multiple of p minus the operand."""
  c = e04.neg_constant()

  def goals(ins, outs):
    if outs[0].shape != (batch, NM):
      return [('shape', smt.FALSE)]
    g = []
    for r, (a, v) in enumerate(zip(rows(ins[0]), rows(outs[0]))):
      for i in range(NM):
        g.append((f'row {r} residue {i}',
                  smt.Cong(v[i], T.sub(c, a[i]), e04.MODS[i])))
        g.append((f'row {r} residue {i} fits', smt.In(v[i], 0, 1 << 17)))
    return g

  return Obl(f'negate_rns_for_var_add x{batch}',
             lambda a: ff.negate_rns_for_var_add(a),
             lambda: [varr('a', (batch, NM), U16)], goals,
             encoded=[ff.negate_rns_for_var_add],
             bounds='every residue vector')


def rns_parts(b, sizes, patterns):
  obs = [e04.constants(), negation(b), e04.negate_checked(b)]
  for k in sizes:
    obs += [e04.composite(k * b), e04.mul_lanes(k * b)]
  obs += [e04.mod_red(1)]
  obs += [addsub(p, b) for p in patterns]
  return obs


# ------------------------------------------------- points
class Point:
  """Symbolic affine coordinates and scaling, batch rows."""

  def __init__(self, tag, b):
    self.v = [[T.var(f'{c}{tag}_{i}', 0, P377 - 1) for c in 'xyz']
              for i in range(b)]

  def arr(self):
    """The symbols themselves as limb rows, for the specification."""
    fl = [d for row in self.v for s in row for d in split(s, 24)]
    return Arr(obj((len(self.v), 3, 24), fl), U16)


def spec_vals(a):
  """Per row (x, y, z) from the arrays made by Point.arr."""
  x = a.x
  return [[num(list(x[i, j])) for j in range(3)] for i in range(x.shape[0])]


def xyzz(x, y, z):
  z2 = T.mul(z, z)
  z3 = T.mul(z2, z)
  return [T.mul(x, z2), T.mul(y, z3), z2, z3]


def edwards(x, y, z):
  return [T.mul(x, z), T.mul(y, z), z, T.mul(T.mul(x, y), z)]


def coords(pt, form, enc, first=False):
  """Packed coordinate array (4, b, n), or (b, 4, n)."""
  per = [[enc(c, i) for i, c in enumerate(form(*v))] for v in pt.v]
  b, n = len(per), len(per[0][0])
  if first:
    fl = [d for p in per for c in p for d in c]
    return Arr(obj((b, 4, n), fl), U16)
  fl = [d for j in range(4) for p in per for d in p[j]]
  return Arr(obj((4, b, n), fl), U16)


def limb_enc(n, his):
  return lambda c, i: split(residue(c, his[i]), n)


def rns_enc(his):
  def enc(c, i):
    v = residue(c, his[i])
    row = [T.mod(v, m) for m in e04.MODS]
    rowtable()[key(row)] = Rep(fp(v), 0, his[i])
    return row
  return enc


def out_vals(out, b, rns, first=False):
  """Per batch row the four coordinates' polynomials mod p and ranges."""
  x = out.x
  res = []
  for r in range(b):
    co = []
    for j in range(4):
      row = list(x[r, j] if first else x[j, r])
      if rns:
        q = rep(row)
        if q is None:
          raise T.Unsupported('result row of unknown origin')
        co.append((q.f, q.lo, q.hi))
      else:
        n = num(row)
        co.append((fp(n), T.lo_(n), T.hi_(n)))
    res.append(co)
  return res


def law(label, f, g):
  """f and g are congruent modulo p."""
  return (label, smt.Cong(pmod(f), pmod(g), P377))


def nonzero(label, f, scal, base):
  """f vanishes only where base or one of the scalars does.

  Symbolically: f is a constant times powers of the scalars and of base.
  """
  f, base = pmod(f), pmod(base)
  if not isinstance(f, T.Sym):
    free = [base] + scal
    zero = any(not isinstance(v, T.Sym) and v == 0 for v in free)
    return (label, smt.TRUE if zero or f != 0 else smt.FALSE)
  rest = f.p
  for s in scal:
    if not isinstance(s, T.Sym):
      continue
    (mono, _), = s.p.items()
    while rest and all(mono[0] in m for m in rest):
      rest = {_drop(m, mono[0]): c for m, c in rest.items()}
  k, g = 1, base
  for _ in range(8):
    m = max(rest)
    gp = T.poly(g)
    if m in gp:
      k = rest[m] * pow(gp[m], -1, P377) % P377
      if pmod(T.sub(T.mk(rest), T.mul(g, k))) == 0:
        return (label, smt.Cong(T.mk(rest), T.mul(g, k), P377))
    g = mulp(g, base)
  return (label, smt.Cong(T.mk(rest), base, P377))


def _drop(m, a):
  m = list(m)
  m.remove(a)
  return tuple(m)


def mulp(*xs):
  r = xs[0]
  for x in xs[1:]:
    r = pmod(T.mul(r, x))
  return r
