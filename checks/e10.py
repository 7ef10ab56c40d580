"""E10: reference curve classes."""
JOBS = 8
ASSUMPTIONS = [
    'The listed moduli are prime: a product of non-zero elements is not '
    'zero, and b^(p-2) is the inverse of b.',
    'The reference field classes compute modulo p (decided by E09).',
    'Points have odd order (y is not zero), as those of the prime-order '
    'subgroup; twisting is of points where the map is defined, and the '
    'twisted sum is a point whose image is defined.',
]

from checks.points import *
from jaxite.jaxite_ec.algorithm import big_integer, config_file
from jaxite.jaxite_ec.algorithm import elliptic_curve as rec
from jaxite.jaxite_ec.algorithm import finite_field as rff
from jv import pysym as P

CTX = P.PyCtx(lambda: [big_integer, rff, rec])
CFG, CFT = config_file.config_BLS12_377, config_file.config_BLS12_377_t

# ------------------------------------------------- inverses
def invs():
  """Inverse atoms: id -> (polynomial inverted, base atom id or None)."""
  return T.CTX.__dict__.setdefault('inv_table', {})


def one_atom(t):
  (m, c), = t.p.items()
  return m[0]


def inv_atom(q):
  """Inverse of the monic polynomial q."""
  t = T.fn('inv', [q], lambda v: pow(int(v), P377 - 2, P377), 0, P377 - 1)
  a = one_atom(t)
  if a not in invs():
    base = None
    if len(q.p) == 1:
      base = one_atom(q)
    invs()[a] = (q, base)
  return t


def cancel(t):
  """Drop v * inv(v) from monomials."""
  if not isinstance(t, T.Sym):
    return t
  iv = {a: b for a, (_, b) in invs().items() if b is not None}
  if not iv:
    return t
  out = {}
  for m, c in t.p.items():
    m = list(m)
    for a in [x for x in m if x in iv]:
      if iv[a] in m and a in m:
        m.remove(a)
        m.remove(iv[a])
    m = tuple(m)
    out[m] = (out.get(m, 0) + c) % P377
  out = {m: c for m, c in out.items() if c}
  return T.mk(out) if out else 0


def inv_poly(f):
  """Polynomial of the inverse of f."""
  f = cancel(pmod(f))
  if not isinstance(f, T.Sym):
    return pow(int(f), P377 - 2, P377)
  if not any(f.p):                       # a constant
    return pow(int(f.p[()]), P377 - 2, P377)
  lead = max(f.p)
  k = pow(f.p[lead], -1, P377)
  # common monomial
  com = list(min(f.p, key=len))
  for m in f.p:
    keep = []
    rest = list(m)
    for a in com:
      if a in rest:
        rest.remove(a)
        keep.append(a)
    com = keep
  rest = {}
  for m, c in f.p.items():
    m = list(m)
    for a in com:
      m.remove(a)
    rest[tuple(m)] = c * k % P377
  out = k
  for a in com:
    if a in invs():
      out = pmod(T.mul(out, invs()[a][0]))
      continue
    at = T.CTX.atoms[a]
    out = pmod(T.mul(out, inv_atom(T.mk({(a,): 1}, at.lo, at.hi))))
  if any(rest):
    out = pmod(T.mul(out, inv_atom(T.mk(rest))))
  return cancel(out)


def named(poly, term=None):
  """The canonical residue of poly, named."""
  t = poly if term is None else term
  r = T.mod(t, P377)
  n = T.name(r) if isinstance(r, T.Sym) else r
  return note(n, poly)


def mod_hook(a, m):
  if m != P377 or not isinstance(a, T.Sym):
    return None
  f = cancel(fp(a))
  if not isinstance(f, T.Sym):
    return int(f) % P377
  if len(f.p) == 1 and list(f.p.values()) == [1]:
    (mono, _), = f.p.items()
    if len(mono) == 1 and mono[0] not in table():
      at = T.CTX.atoms[mono[0]]
      return T.mk({mono: 1}, at.lo, at.hi)
  return named(f)


def pow_hook(a, e, m):
  if m != P377 or e not in (m - 2, -1):
    return None
  f = inv_poly(fp(a))
  if not isinstance(f, T.Sym):
    return int(f) % P377
  return named(f)


def clear(f):
  """f = 0 without denominators: outermost inverses first."""
  f = cancel(pmod(f))
  for a in sorted(invs(), reverse=True):
    if not isinstance(f, T.Sym):
      return f
    deg = max(sum(1 for x in m if x == a) for m in f.p)
    if not deg:
      continue
    q = invs()[a][0]
    pw = [1]
    for _ in range(deg):
      pw.append(mulp(pw[-1], q))
    parts = {}
    for m, c in f.p.items():
      k = sum(1 for x in m if x == a)
      parts.setdefault(k, {})[tuple(x for x in m if x != a)] = c
    f = pmod(T.total([pmod(T.mul(T.mk(d), pw[deg - k]))
                      for k, d in parts.items()]))
    f = cancel(f)
  return f


# ------------------------------------------------- equalities on a path
def nz():
  """Polynomials assumed not to vanish."""
  return T.CTX.__dict__.setdefault('nz_table', [])


def order(m):
  return (len(m), m)


def lead(f):
  return max(f.p, key=order)


def quotient(m, n):
  """m / n for monomials, or None."""
  m = list(m)
  for a in n:
    if a not in m:
      return None
    m.remove(a)
  return tuple(m)


def reduce(f, zeros):
  """Rewrite f by polynomials known to vanish (monic, led by order)."""
  f = pmod(f)
  if not zeros or not isinstance(f, T.Sym):
    return f
  done, todo = {}, dict(f.p)
  n = 0
  while todo:
    n += 1
    if n > 20000:
      raise T.Unsupported('rewriting does not end')
    m = max(todo, key=order)
    c = todo.pop(m)
    for g in zeros:
      lg = lead(g)
      q = quotient(m, lg)
      if q is None:
        continue
      for k, v in g.p.items():
        if k != lg:
          w = tuple(sorted(k + q))
          r = (todo.get(w, 0) - c * v) % P377
          todo.pop(w, None)
          if r:
            todo[w] = r
      break
    else:
      done[m] = c
  return T.mk(done) if done else 0


def monic(f):
  if not isinstance(f, T.Sym):
    return 0 if f % P377 == 0 else 1
  k = pow(f.p[lead(f)], -1, P377)
  return pmod(T.mul(f, k))


def divide(f, g):
  """f / g where g is monic, or None."""
  lg = lead(g)
  out, todo = {}, dict(f.p)
  while todo:
    m = max(todo, key=order)
    c = todo[m]
    q = quotient(m, lg)
    if q is None:
      return None
    out[q] = c
    for k, v in g.p.items():
      w = tuple(sorted(k + q))
      r = (todo.get(w, 0) - c * v) % P377
      todo.pop(w, None)
      if r:
        todo[w] = r
  return T.mk(out)


def strip(f):
  """f without factors that cannot vanish, monic; 0, 1 or a polynomial."""
  f = monic(pmod(f))
  if not isinstance(f, T.Sym):
    return f
  rest = f.p
  for a in sorted({a for m in rest for a in m}):
    at = T.CTX.atoms[a]
    if at.lo >= 1 and at.hi < P377 or a in invs():
      while rest and all(a in m for m in rest):
        rest = {_cut(m, a): c for m, c in rest.items()}
  f = T.mk(rest)
  for g in nz():
    while isinstance(f, T.Sym) and any(f.p):
      q = divide(f, g)
      if q is None:
        break
      f = q
  if isinstance(f, T.Sym) and not any(f.p):
    f = int(f.p[()])
  return monic(f)


def _cut(m, a):
  m = list(m)
  m.remove(a)
  return tuple(m)


def learn(ex, f):
  """f vanishes on this path."""
  todo = [f]
  while todo:
    f = strip(reduce(todo.pop(), ex.zeros))
    if not isinstance(f, T.Sym):
      if f:
        raise P.Infeasible
      continue
    todo += [g for g in ex.zeros if reducible(g, f)]
    ex.zeros = [g for g in ex.zeros if not reducible(g, f)] + [f]
  for g in ex.others:
    if strip(reduce(g, ex.zeros)) == 0:
      raise P.Infeasible


def reducible(g, f):
  lf = lead(f)
  return any(quotient(m, lf) is not None for m in g.p)


def settle(f, zeros):
  """0 or 1 where f is known to vanish or not to."""
  g = strip(f)
  return strip(reduce(g, zeros)) if isinstance(g, T.Sym) else g


def eq_hook(ex, a, b):
  if any(T.lo_(t) < 0 or T.hi_(t) >= P377 for t in (a, b)):
    return None
  f = clear(T.sub(fp(a), fp(b)))
  f = settle(f, ex.zeros)
  if not isinstance(f, T.Sym):
    return f == 0
  if any(g.p == f.p for g in ex.others):
    return False
  d = ex.fork(T.eq(a, b))
  if d:
    learn(ex, f)
  else:
    ex.others.append(f)
  return d


def zero_goal(label, f, zeros=()):
  """f is 0 modulo p."""
  return (label, smt.Cong(reduce(clear(f), zeros), 0, P377))


def finite_goal(label, f, zeros=()):
  """f is not 0 modulo p."""
  g = settle(clear(f), zeros)
  if isinstance(g, T.Sym):
    return (label, smt.Not(smt.Cong(g, 0, P377)))
  return (label, smt.TRUE if g else smt.FALSE)


def sub_(a, b):
  return pmod(T.sub(a, b))


# ------------------------------------------------- points
SYS = {
    'affine': rec.ECCSWeierstrassAffine,
    'projective': rec.ECCSWeierstrassProjective,
    'XYZZ': rec.ECCSWeierstrassXYZZ,
}


def form(kind, x, y, z):
  if kind == 'affine':
    return [x, y]
  if kind == 'projective':
    return [T.mul(x, z), T.mul(y, z), z]
  return xyzz(x, y, z)


def encode(kind, v, cfg):
  """Coordinates handed to the code, reduced."""
  out = []
  for c in form(kind, *v):
    out.append(mod_hook(c, P377) if isinstance(c, T.Sym) else int(c) % P377)
  return out


def show(pt):
  """zero flag and coordinates of a result."""
  if pt.is_zero():
    return [1]
  return [0] + [c.value.value for c in pt.coordinates]


def affine_of(kind, o):
  """(numerator, denominator) of x and y from coordinates."""
  if kind == 'affine':
    return (o[0], 1), (o[1], 1)
  if kind == 'projective':
    return (o[0], o[2]), (o[1], o[2])
  return (o[0], o[2]), (o[1], o[3])


def chord(x1, y1, x2, y2):
  """x3 = N/d^2, y3 = M/d^3."""
  d, e = sub_(x2, x1), sub_(y2, y1)
  d2 = mulp(d, d)
  d3 = mulp(d2, d)
  N = sub_(mulp(e, e), mulp(T.add(x1, x2), d2))
  M = sub_(mulp(e, sub_(mulp(x1, d2), N)), mulp(y1, d3))
  return (N, d2), (M, d3), d


def tangent(x, y, a):
  m = pmod(T.add(T.mul(mulp(x, x), 3), a))
  u = pmod(T.mul(y, 2))
  u2 = mulp(u, u)
  u3 = mulp(u2, u)
  N = sub_(mulp(m, m), T.mul(mulp(x, u2), 2))
  M = sub_(mulp(m, sub_(mulp(x, u2), N)), mulp(y, u3))
  return (N, u2), (M, u3), y


def same(kind, o, want, zeros, finite=True, div=True):
  """Goals: coordinates o stand for the affine point want."""
  need_n = {'affine': 3, 'projective': 3, 'XYZZ': 4}[kind]
  if len(o) != need_n:
    return [('coordinates', smt.FALSE)]
  g = [(f'coordinate {i} canonical', smt.In(v, 0, P377 - 1))
       for i, v in enumerate(o)]
  f = [cancel(fp(v)) for v in o]
  (X, dx), (Y, dy) = affine_of(kind, f)
  (N, d2), (M, d3), base = want
  g += [zero_goal('x', sub_(mulp(X, d2), mulp(dx, N)), zeros),
        zero_goal('y', sub_(mulp(Y, d3), mulp(dy, M)), zeros)]
  if kind == 'affine':
    g.append(('third coordinate', smt.Eq(o[2], 1)))
    return g + (denominators(o) if div else [])
  if kind == 'XYZZ':
    g.append(zero_goal('zz^3 = zzz^2', sub_(mulp(f[2], f[2], f[2]),
                                            mulp(f[3], f[3])), zeros))
  if finite:
    g.append(finite_goal('finite', f[2], zeros))
  return g + (denominators(o) if div else [])


def denominators(o):
  """Whatever is divided by is not zero."""
  out = []
  if not any(isinstance(v, T.Sym) for v in o):
    return out
  for q, _ in invs().values():
    out.append(finite_goal('divisor', q))
  return out


def hooks():
  P.MODHOOK, P.POWMOD, P.EQHOOK = mod_hook, pow_hook, eq_hook


def scale(kind, tag, z):
  """Scaling of a point: 1 or any."""
  if kind == 'affine' or z == '1':
    return 1
  return T.var(f'z{tag}', 1, P377 - 1)


def generic(x1, y1, x2, y2):
  """Coefficients of a curve through the points."""
  if x2 is x1:
    a = T.var('a', 0, P377 - 1)
  else:
    inv = inv_poly(T.sub(x2, x1))
    a = T.sub(T.sub(T.mul(y2, y2), T.mul(y1, y1)),
              T.sub(mulp(x2, x2, x2), mulp(x1, x1, x1)))
    a = named(mulp(pmod(a), inv))
  af = fp(a)
  b = sub_(T.mul(y1, y1), T.add(mulp(x1, x1, x1), mulp(af, x1)))
  return a, named(b)


def config(ab):
  return dict(CFG, a=ab[0], b=ab[1])


def add(kind, case, zs, curve='any', via='+'):
  """case: other | same | opposite."""
  cls = SYS[kind]
  n = {'affine': 2, 'projective': 3, 'XYZZ': 4}[kind]

  def inputs():
    hooks()
    x1 = T.var('x1', 0, P377 - 1)
    y1 = T.var('y1', 1, P377 - 1)
    nz().clear()
    if case == 'other':
      x2, y2 = T.var('x2', 0, P377 - 1), T.var('y2', 1, P377 - 1)
      nz().append(monic(T.sub(x2, x1)))
      if kind == 'projective':
        # the y coordinate of the difference
        _, (M, _), _ = chord(x1, y1, x2, T.sub(0, y2))
        nz().append(monic(M))
    else:
      x2 = x1
      y2 = y1 if case == 'same' else T.sub(P377, y1)
    z1, z2 = scale(kind, 1, zs[0]), scale(kind, 2, zs[1])
    a, b = (CFG['a'], CFG['b']) if curve == 'default' else generic(
        x1, y1, x2, y2)
    c1 = encode(kind, (x1, y1, z1), None)
    c2 = encode(kind, (x2, y2, z2), None)
    return [P.PArr(obj((2,), [a, b])), P.PArr(obj((n,), c1)),
            P.PArr(obj((n,), c2)), P.PArr(obj((4,), [x1, y1, x2, y2]))]

  def assume(ins):
    x1, _, x2, _ = ins[3].x
    if case != 'other':
      return []
    return [smt.Not(smt.Eq(T.sub(x2, x1), 0))]

  def call(ab, a, b, _):
    s = cls(config(ab))
    p, q = s.generate_point(P.lst(a)), s.generate_point(P.lst(b))
    r = p + q if via == '+' else getattr(s, via)(p, q)
    return show(r) + show(p) + show(q)

  def goals(ins, outs):
    zeros = getattr(outs, 'zeros', ())
    x1, y1, x2, y2 = [fp(v) for v in ins[3].x]
    o = [v.x[()] for v in outs]
    k = 3 if kind == 'affine' else n
    a, b = list(ins[1].x), list(ins[2].x)
    if kind == 'affine':
      a, b = a + [1], b + [1]
    tail = o[-2 * (k + 1):]
    g = [('operands unchanged', smt.Eq(u, v))
         for u, v in zip(tail, [0] + a + [0] + b)]
    o = o[:len(o) - 2 * (k + 1)]
    if case == 'opposite':
      return g + [('infinity', smt.TRUE if o == [1] else smt.FALSE)]
    if not o or o[0] != 0:
      return g + [('finite', smt.FALSE)]
    want = chord(x1, y1, x2, y2) if case == 'other' else tangent(
        x1, y1, fp(ins[0].x[0]))
    return g + same(kind, o[1:], want, zeros,
                    finite=True)
  return Obl(f'{kind} {via} {case} z={zs[0]},{zs[1]}', call, inputs,
             goals, assume=assume, mode='py', pyctx=CTX, max_paths=60,
             encoded=[cls.point_add, cls.add_general], validate=True,
             bounds='every two points with ' + {
                 'other': 'different x', 'same': 'the same x and y',
                 'opposite': 'opposite y'}[case] + ', every scaling and every '
             'curve through them')


def one_point(kind, z):
  """Inputs: a curve, a point of it and its affine coordinates."""
  n = {'affine': 2, 'projective': 3, 'XYZZ': 4}[kind]

  def inputs():
    hooks()
    nz().clear()
    x, y = T.var('x1', 0, P377 - 1), T.var('y1', 1, P377 - 1)
    a, b = generic(x, y, x, y)
    c = encode(kind, (x, y, scale(kind, 1, z)), None)
    return [P.PArr(obj((2,), [a, b])), P.PArr(obj((n,), c)),
            P.PArr(obj((2,), [x, y]))]
  return inputs


def width(kind):
  return 4 if kind == 'XYZZ' else 3


def full(kind, c):
  """Coordinates the code keeps for those handed to it."""
  c = list(c)
  return c + [1] if kind == 'affine' else c


def double(kind, z, k):
  """p << k is p added to itself, k times over."""
  cls = SYS[kind]
  w = width(kind) + 1

  def call(ab, c, _):
    s = cls(config(ab))
    p = s.generate_point(P.lst(c))
    out = []
    out += show(p << k)
    out += show(s.point_lshift(p, k))
    q = p
    for _ in range(k):
      q = q + q
    return out + show(q) + show(s.double_general(p)) + show(p)

  def goals(ins, outs):
    o = [v.x[()] for v in outs]
    if len(o) != 5 * w or any(o[i * w] != 0 for i in range(5)):
      return [('finite', smt.FALSE)]
    part = [o[i * w + 1:(i + 1) * w] for i in range(5)]
    g = [('same as repeated addition', smt.Eq(u, v))
         for j in (0, 1) for u, v in zip(part[j], part[2])]
    g += [('operand unchanged', smt.Eq(u, v))
          for u, v in zip(part[4], full(kind, ins[1].x))]
    x, y = [fp(v) for v in ins[2].x]
    return g + same(kind, part[3], tangent(x, y, fp(ins[0].x[0])),
                    getattr(outs, 'zeros', ()), div=k < 2)
  return Obl(f'{kind} << {k} z={z}', call, one_point(kind, z), goals,
             mode='py', pyctx=CTX, max_paths=40,
             encoded=[cls.point_lshift, cls.double_general],
             bounds='every point, scaling and curve')


def zero_ops(kind, z):
  """The point at infinity is neutral."""
  cls = SYS[kind]
  w = width(kind) + 1

  def call(ab, c, _):
    s = cls(config(ab))
    p = s.generate_point(P.lst(c))
    o = s.generate_point(zero=True)
    out = show(p + o) + show(o + p) + show(s.point_add(p, o))
    out += show(o + o) + show(o << 1) + show(o << 3) + show(o.copy())
    out += show(s.point_lshift(o, 2))
    return out + show(p)

  def goals(ins, outs):
    o = [v.x[()] for v in outs]
    if len(o) != 4 * w + 5:
      return [('zero flags', smt.FALSE)]
    part = [o[:w], o[w:2 * w], o[2 * w:3 * w], o[-w:]]
    g = [('infinity', smt.TRUE if v == 1 else smt.FALSE)
         for v in o[3 * w:3 * w + 5]]
    for q in part:
      g += [('neutral', smt.Eq(u, v))
            for u, v in zip(q, [0] + full(kind, ins[1].x))]
    return g
  return Obl(f'{kind} zero z={z}', call, one_point(kind, z), goals, mode='py',
             pyctx=CTX, encoded=[cls.point_add, rec.ECPoint.__lshift__],
             bounds='every point, scaling and curve')


def to_affine(kind, z):
  """convert_to_affine gives x and y, and leaves the point alone."""
  cls = SYS[kind]
  w = width(kind)

  def call(ab, c, _):
    s = cls(config(ab))
    p = s.generate_point(P.lst(c))
    q = p.convert_to_affine()
    o = s.generate_point(zero=True).convert_to_affine()
    kind_ok = q.get_type() == rec.CoordinateSystemType.WEIERSTRASS_AFFINE
    return [int(kind_ok), int(o.is_zero())] + show(q) + show(p)

  def goals(ins, outs):
    o = [v.x[()] for v in outs]
    if len(o) != 2 * w + 4 or o[:3] != [1, 1, 0] or o[3 + w] != 0:
      return [('finite affine point', smt.FALSE)]
    x, y = [fp(v) for v in ins[2].x]
    r = [cancel(fp(v)) for v in o[3:3 + w]]
    g = [(f'coordinate {i} canonical', smt.In(v, 0, P377 - 1))
         for i, v in enumerate(o[3:3 + w])]
    want = [x, y] + [1] * (w - 2)
    g += [zero_goal(f'coordinate {i}', sub_(u, v))
          for i, (u, v) in enumerate(zip(r, want))]
    g += [('operand unchanged', smt.Eq(u, v))
          for u, v in zip(o[4 + w:], full(kind, ins[1].x))]
    return g + denominators(o)
  return Obl(f'{kind} convert_to_affine z={z}', call, one_point(kind, z),
             goals, mode='py', pyctx=CTX, encoded=[cls.convert_to_affine],
             bounds='every point and scaling')


def from_affine():
  """XYZZ.convert_from_affine, and back; sums agree across systems."""
  def call(ab, c, _):
    s, t = rec.ECCSWeierstrassAffine(config(ab)), rec.ECCSWeierstrassXYZZ(
        config(ab))
    p = s.generate_point(P.lst(c))
    q = t.convert_from_affine(p)
    o = t.convert_from_affine(s.generate_point(zero=True))
    d = q + q
    return (show(q) + show(p) + [int(o.is_zero())] + show(q + o)
            + [int(d.coordinate_system is t)] + show(d)
            + show(q.convert_to_affine()))

  def goals(ins, outs):
    o = [v.x[()] for v in outs]
    if len(o) != 26 or o[0] != 0 or o[5] != 0 or o[9] != 1 or o[15] != 1:
      return [('finite points', smt.FALSE)]
    x, y = ins[2].x
    g = [('coordinates', smt.Eq(u, v)) for u, v in
         zip(o[1:5] + o[6:9] + o[10:15] + o[22:],
             [x, y, 1, 1, x, y, 1, 0, x, y, 1, 1, x, y, 1, 1])]
    return g + same('XYZZ', o[17:21], tangent(fp(x), fp(y), fp(ins[0].x[0])),
                    getattr(outs, 'zeros', ()))
  return Obl('XYZZ convert_from_affine', call, one_point('affine', '1'), goals,
             mode='py', pyctx=CTX,
             encoded=[rec.ECCSWeierstrassXYZZ.convert_from_affine],
             bounds='every affine point')


def equality(kind):
  """Points are equal when their coordinates are; copies are independent."""
  cls = SYS[kind]
  n = {'affine': 2, 'projective': 3, 'XYZZ': 4}[kind]

  def inputs():
    hooks()
    P.EQHOOK = None
    return [P.PArr(obj((n,), [T.var(f'{t}{i}', 0, P377 - 1)
                              for i in range(n)])) for t in 'ab']

  def call(a, b):
    s = cls(CFG)
    p, q = s.generate_point(P.lst(a)), s.generate_point(P.lst(b))
    e = p == q
    c = p.copy()
    f = c == p
    c[0] = q[0]
    return [int(bool(e)), int(bool(f))] + show(p) + show(c) + show(q)

  def goals(ins, outs):
    o = [v.x[()] for v in outs]
    w = width(kind)
    if len(o) != 2 + 3 * (w + 1):
      return [('coordinates', smt.FALSE)]
    a, b = full(kind, ins[0].x), full(kind, ins[1].x)
    eq = [smt.Eq(u, v) for u, v in zip(a, b)]
    g = [('equal', smt.And(smt.Or(smt.Eq(o[0], 0), smt.And(*eq)),
                           smt.Or(smt.Eq(o[0], 1), smt.Not(smt.And(*eq))))),
         ('copy equal', smt.Eq(o[1], 1))]
    want = [0] + a + [0] + [b[0]] + a[1:] + [0] + b
    return g + [('coordinates', smt.Eq(u, v)) for u, v in zip(o[2:], want)]
  return Obl(f'{kind} equality', call, inputs, goals, mode='py', pyctx=CTX,
             encoded=[rec.ECPoint.__eq__, rec.ECPoint.copy],
             bounds='every two coordinate lists')


def integers(kind):
  """generate_point reduces integers modulo p."""
  cls = SYS[kind]
  n = {'affine': 2, 'projective': 3, 'XYZZ': 4}[kind]

  def inputs():
    hooks()
    P.EQHOOK = P.MODHOOK = None
    return [P.PArr(obj((n,), [T.var(f'a{i}', -P377 * 2, P377 * 4)
                              for i in range(n)]))]

  def call(a):
    return show(cls(CFG).generate_point(P.lst(a)))

  def goals(ins, outs):
    o = [v.x[()] for v in outs]
    want = [0] + [T.mod(v, P377) for v in full(kind, ins[0].x)]
    if len(o) != len(want):
      return [('coordinates', smt.FALSE)]
    return [('coordinate', smt.Eq(u, v)) for u, v in zip(o, want)]
  return Obl(f'{kind} generate_point', call, inputs, goals, mode='py',
             pyctx=CTX, encoded=[cls.generate_formal_coordinates],
             bounds='every integer in [-2p, 4p]')


# ------------------------------------------------- twisted Edwards
def finite_unless(label, f, qs):
  """f vanishes only where one of qs does."""
  qs = [pmod(q) for q in qs]
  if any(not isinstance(q, T.Sym) and q == 0 for q in qs):
    return (label, smt.TRUE)
  nz()[:] = [monic(q) for q in qs if isinstance(q, T.Sym)]
  g = finite_goal(label, f)
  nz().clear()
  return g


TW = rec.ECCSTwistedEdwardsExtended


def tw_point(tag, z):
  x, y = T.var(f'x{tag}', 0, P377 - 1), T.var(f'y{tag}', 0, P377 - 1)
  s = T.var(f'z{tag}', 1, P377 - 1) if z == 'any' else 1
  c = [mod_hook(v, P377) if isinstance(v, T.Sym) else v
       for v in edwards(x, y, s)]
  return [x, y], c


def tw_constants():
  """alpha is a root of x^3 + 1 and the Montgomery form is that of -1, d."""
  def call(x):
    s = TW(CFT)
    return [c.value.value for c in (s.a, s.d, s.alpha, s.s, s.ma, s.mb, s.t)]

  def goals(ins, outs):
    a, d, al, s, ma, mb, t = [int(v.x[()]) for v in outs]
    return [
        ('alpha', smt.Cong(al**3 + 1, 0, P377)),
        ('s', smt.Cong(s * s * 3 * al * al, 1, P377)),
        ('MA', smt.Cong(ma, 3 * al * s, P377)),
        ('MB', smt.Cong(mb, s, P377)),
        ('a', smt.Cong(a, -1, P377)),
        ('t', smt.Cong(t * t * mb, -(ma + 2), P377)),
        ('d', smt.Cong(d * (ma + 2), -(ma - 2), P377)),
    ]
  return Obl('twisted constants', call, lambda: [P.PArr(obj((1,), [0]))],
             goals, mode='py', pyctx=CTX, encoded=[TW.__init__],
             bounds='the configured curve')


def tw_add(zs):
  def inputs():
    hooks()
    nz().clear()
    v1, c1 = tw_point(1, zs[0])
    v2, c2 = tw_point(2, zs[1])
    return [P.PArr(obj((4,), c1)), P.PArr(obj((4,), c2)),
            P.PArr(obj((4,), v1 + v2))]

  def call(a, b, _):
    s = TW(CFT)
    p = s.generate_point(P.lst(a), twist=False)
    q = s.generate_point(P.lst(b), twist=False)
    return show(p + q) + show(p) + show(q)

  def goals(ins, outs):
    o = [v.x[()] for v in outs]
    if len(o) != 15 or o[0] != 0:
      return [('coordinates', smt.FALSE)]
    x1, y1, x2, y2 = [fp(v) for v in ins[2].x]
    X, Y, Z, W = [fp(v) for v in o[1:5]]
    t = mulp(CFT['d'], x1, x2, y1, y2)
    plus, minus = pmod(T.add(1, t)), pmod(T.sub(1, t))
    g = [('canonical', smt.In(v, 0, P377 - 1)) for v in o[1:5]]
    g += [zero_goal('x', sub_(mulp(X, plus),
                              mulp(Z, T.add(mulp(x1, y2), mulp(x2, y1))))),
          zero_goal('y', sub_(mulp(Y, minus),
                              mulp(Z, T.add(mulp(y1, y2), mulp(x1, x2))))),
          zero_goal('t = xy/z', sub_(mulp(W, Z), mulp(X, Y)))]
    g.append(finite_unless('finite', Z, [plus, minus]))
    g += [('operands unchanged', smt.Eq(u, v)) for u, v in
          zip(o[5:], [0] + list(ins[0].x) + [0] + list(ins[1].x))]
    return g
  return Obl(f'twisted + z={zs[0]},{zs[1]}', call, inputs, goals, mode='py',
             pyctx=CTX, encoded=[TW.point_add],
             bounds='every two points with every scaling')


def tw_double(z, k):
  def inputs():
    hooks()
    nz().clear()
    v, c = tw_point(1, z)
    return [P.PArr(obj((4,), c)), P.PArr(obj((2,), v))]

  def call(a, _):
    s = TW(CFT)
    p = s.generate_point(P.lst(a), twist=False)
    q = p
    for _ in range(k):
      q = s.double_general(q)
    return (show(p << k) + show(s.point_lshift(p, k)) + show(q)
            + show(s.double_general(p)) + show(p))

  def goals(ins, outs):
    o = [v.x[()] for v in outs]
    if len(o) != 25 or any(o[5 * i] != 0 for i in range(5)):
      return [('coordinates', smt.FALSE)]
    part = [o[5 * i + 1:5 * i + 5] for i in range(5)]
    g = [('same as repeated doubling', smt.Eq(u, v))
         for j in (0, 1) for u, v in zip(part[j], part[2])]
    g += [('operand unchanged', smt.Eq(u, v))
          for u, v in zip(part[4], ins[0].x)]
    x, y = [fp(v) for v in ins[1].x]
    X, Y, Z, W = [fp(v) for v in part[3]]
    xx, yy = mulp(x, x), mulp(y, y)
    plus = pmod(T.sub(yy, xx))
    minus = pmod(T.sub(2, plus))
    g += [zero_goal('x', sub_(mulp(X, plus), mulp(Z, 2, x, y))),
          zero_goal('y', sub_(mulp(Y, minus), mulp(Z, T.add(xx, yy)))),
          zero_goal('t = xy/z', sub_(mulp(W, Z), mulp(X, Y)))]
    g.append(finite_unless('finite', Z, [plus, minus]))
    return g
  return Obl(f'twisted << {k} z={z}', call, inputs, goals, mode='py',
             pyctx=CTX, encoded=[TW.double_general, TW.point_lshift],
             bounds='every point and scaling')


def mont(x, y):
  """Montgomery coordinates of a Weierstrass point."""
  xm = mulp(CFT['s'], T.sub(x, CFT['alpha']))
  return pmod(xm), mulp(CFT['s'], y)


def tw_inputs():
  """A Weierstrass point whose image is defined."""
  hooks()
  nz().clear()
  x, y = T.var('x1', 0, P377 - 1), T.var('y1', 1, P377 - 1)
  xm, _ = mont(x, y)
  nz().append(monic(T.add(xm, 1)))
  return [P.PArr(obj((2,), [x, y]))]


def tw_assume(i, inf=False):
  """The point's image is defined."""
  si = pow(CFT['s'], -1, P377)
  bad = [(CFT['alpha'] - si) % P377] + ([CFT['alpha'] % P377] if inf else [])
  return lambda ins: [smt.Not(smt.Eq(ins[i].x[0], b)) for b in bad]


def tw_map(via):
  """(x, y) goes to (t xm / ym, (xm - 1) / (xm + 1))."""
  def call(a):
    s = TW(CFT)
    if via == 'generate_point':
      return show(s.generate_point(P.lst(a)))
    return [0] + list(s.twist_int_coordinates(P.lst(a)))

  def goals(ins, outs):
    o = [v.x[()] for v in outs]
    if len(o) != 5 or o[0] != 0:
      return [('coordinates', smt.FALSE)]
    x, y = [fp(v) for v in ins[0].x]
    xm, ym = mont(x, y)
    X, Y, Z, W = [cancel(fp(v)) for v in o[1:]]
    g = [('canonical', smt.In(v, 0, P377 - 1)) for v in o[1:]]
    return g + [
        zero_goal('x', sub_(mulp(X, ym), mulp(CFT['t'], xm))),
        zero_goal('y', sub_(mulp(Y, T.add(xm, 1)), T.sub(xm, 1))),
        zero_goal('z', sub_(Z, 1)),
        zero_goal('t', sub_(W, mulp(X, Y)))] + denominators(o)
  return Obl(f'twisted {via}', call, tw_inputs, goals, mode='py', pyctx=CTX,
             assume=tw_assume(0), encoded=[TW.twist], bounds='every point the map is defined for',
             raises=())


def tw_back(z):
  """Back from a twisted point in any scaling."""
  def inputs():
    ins = tw_inputs()
    x, y = ins[0].x
    s = T.var('z1', 1, P377 - 1) if z == 'any' else 1
    xm, ym = mont(x, y)
    # not at infinity
    nz().append(monic(xm))
    X = mulp(CFT['t'], xm, inv_poly(ym))
    Y = mulp(T.sub(xm, 1), inv_poly(T.add(xm, 1)))
    c = [mulp(X, s), mulp(Y, s), pmod(s), mulp(X, Y, s)]
    c = [mod_hook(cancel(v), P377) if isinstance(v, T.Sym) else v for v in c]
    return [P.PArr(obj((4,), c)), ins[0]]

  def call(c, _):
    s = TW(CFT)
    p = s.generate_point(P.lst(c), twist=False)
    q = p.convert_to_affine()
    e = s.convert_to_twisted_edwards_affine(p)
    return show(q)[:3] + show(e)[:4] + show(p)

  def goals(ins, outs):
    o = [v.x[()] for v in outs]
    if len(o) != 12 or o[0] != 0 or o[3] != 0:
      return [('coordinates', smt.FALSE)]
    x, y = [fp(v) for v in ins[1].x]
    xm, ym = mont(x, y)
    g = [zero_goal('x', sub_(cancel(fp(o[1])), x)),
         zero_goal('y', sub_(cancel(fp(o[2])), y)),
         zero_goal('twisted x', sub_(mulp(cancel(fp(o[4])), ym),
                                     mulp(CFT['t'], xm))),
         zero_goal('twisted y', sub_(mulp(cancel(fp(o[5])), T.add(xm, 1)),
                                     T.sub(xm, 1))),
         ('z', smt.Eq(o[6], 1))]
    g += [('canonical', smt.In(v, 0, P377 - 1)) for v in o[1:3] + o[4:6]]
    g += [('operand unchanged', smt.Eq(u, v)) for u, v in
          zip(o[7:], [0] + list(ins[0].x))]
    return g + denominators(o)
  return Obl(f'twisted convert_to_affine z={z}', call, inputs, goals,
             mode='py', pyctx=CTX, assume=tw_assume(1, True),
             encoded=[TW.convert_to_affine, TW.untwist],
             bounds='every point the map is defined for and every scaling')


def tw_zero():
  """(0, 1) is neutral."""
  def inputs():
    hooks()
    nz().clear()
    v, c = tw_point(1, 'any')
    return [P.PArr(obj((4,), c)), P.PArr(obj((2,), v))]

  def call(a, _):
    s = TW(CFT)
    p = s.generate_point(P.lst(a), twist=False)
    o = s.generate_point(zero=True)
    n = [c.value.value for c in o.coordinates]
    n2 = [c.value.value for c in s.generate_point(
        zero=True, twist=False).coordinates]
    return [int(o.is_zero())] + n + n2 + [
        int((o << 2).is_zero())] + show(p + o) + show(o + p)

  def goals(ins, outs):
    o = [v.x[()] for v in outs]
    if len(o) != 20 or o[10] != 0 or o[15] != 0:
      return [('coordinates', smt.FALSE)]
    g = [('zero', smt.Eq(u, v)) for u, v in
         zip(o[:10], [1, 0, 1, 1, 0, 0, 1, 1, 0, 1])]
    x, y = [fp(v) for v in ins[1].x]
    for k in (11, 16):
      X, Y, Z, W = [fp(v) for v in o[k:k + 4]]
      g += [zero_goal('x', sub_(X, mulp(x, Z))),
            zero_goal('y', sub_(Y, mulp(y, Z))),
            zero_goal('t', sub_(W, mulp(x, y, Z))),
            finite_goal('finite', Z)]
    return g
  return Obl('twisted zero', call, inputs, goals, mode='py', pyctx=CTX,
             encoded=[TW.zero, TW.generate_point, TW.point_add],
             bounds='every point and scaling')


def obligations(tier):
  obs = []
  for kind in SYS:
    scales = ('1',) if kind == 'affine' else ('1', 'any')
    for case in ('other', 'same', 'opposite'):
      obs += [add(kind, case, (a, b)) for a in scales for b in scales]
    for z in scales:
      obs += [double(kind, z, k) for k in ((1, 2) if tier == 'quick' else
                                           (0, 1, 2, 3))]
      obs += [zero_ops(kind, z), to_affine(kind, z)]
    obs += [equality(kind), integers(kind)]
  obs.append(from_affine())
  obs.append(tw_constants())
  for a in ('1', 'any'):
    obs += [tw_add((a, b)) for b in ('1', 'any')]
    obs += [tw_double(a, k) for k in (1, 2)]
    obs.append(tw_back(a))
  obs += [tw_map('generate_point'), tw_map('twist_int_coordinates'), tw_zero()]
  return obs
