"""Symbolic integer terms: polynomials over integer atoms, with intervals.

A Sym stands for one machine integer.  `p` is a polynomial with integer
coefficients over atoms (dict: sorted tuple of atom ids -> coefficient).
  m is None : the value IS p, and lo <= value <= hi is known.
  m == w    : the value is only known to be congruent to p mod 2**w; it becomes
              exact (with a quotient atom) when an operation needs its value.
Atoms are inputs, or defined:  floor(P/c), [P>=0], [P==0], names for P.
Everything is exact integer arithmetic; the solver gets the definitions.
"""

import itertools
import math
import random


class Unsupported(Exception):
  pass


class Atom:
  __slots__ = ('id', 'name', 'lo', 'hi', 'kind', 'defn', 'samp')

  def __init__(self, id_, name, lo, hi, kind, defn=None, samp=None):
    self.id, self.name, self.lo, self.hi = id_, name, lo, hi
    self.kind, self.defn, self.samp = kind, defn, samp


class Ctx:
  """Holds all atoms of one obligation."""

  def __init__(self):
    self.atoms = []
    self.cons = {}
    self.bools = set()
    self.narrow = False
    self.div_rng = {}  # range of t for an atom floor(t/c)
    self.ge_rng = {}  # integer range of t for an atom t >= 0
    self.assumptions = []  # list of formulas assumed on inputs
    self.reports = []
    self.facts = []  # proven about defined atoms; true in every run

  def new(self, name, lo, hi, kind, defn=None, samp=None):
    a = Atom(len(self.atoms), name, lo, hi, kind, defn, samp)
    self.atoms.append(a)
    if kind in ('ge', 'eq') or (lo == 0 and hi == 1):
      self.bools.add(a.id)
    return a


CTX = Ctx()


def reset():
  global CTX
  CTX = Ctx()
  return CTX


# ---------------------------------------------------------------- polynomials
ONE = ()


def p_const(c):
  return {ONE: c} if c else {}


def p_add(a, b, k=1):
  if len(a) < len(b) and k == 1:
    a, b = b, a
  r = dict(a)
  for mono, c in b.items():
    v = r.get(mono, 0) + k * c
    if v:
      r[mono] = v
    else:
      r.pop(mono, None)
  return r


def p_scale(a, k):
  if k == 0:
    return {}
  return {m: c * k for m, c in a.items()}


def m_mul(x, y):
  if not x:
    return y
  if not y:
    return x
  bools = CTX.bools
  t = sorted(x + y)
  # idempotent booleans
  out = []
  for a in t:
    if out and out[-1] == a and a in bools:
      continue
    out.append(a)
  return tuple(out)


def p_mul(a, b):
  if len(a) > len(b):
    a, b = b, a
  r = {}
  for m1, c1 in a.items():
    for m2, c2 in b.items():
      m = m_mul(m1, m2)
      v = r.get(m, 0) + c1 * c2
      if v:
        r[m] = v
      else:
        del r[m]
  return r


def p_mul_into(r, a, b, k=1):
  for m1, c1 in a.items():
    for m2, c2 in b.items():
      m = m_mul(m1, m2)
      r[m] = r.get(m, 0) + k * c1 * c2


def p_key(p):
  return tuple(sorted(p.items()))


def p_mod(p, mod):
  """Reduce coefficients symmetrically mod `mod`."""
  r = {}
  h = mod // 2
  for m, c in p.items():
    c %= mod
    if c > h:
      c -= mod
    if c:
      r[m] = c
  return r


def m_range(m):
  lo, hi = 1, 1
  atoms = CTX.atoms
  i = 0
  while i < len(m):
    a = atoms[m[i]]
    j = i
    while j < len(m) and m[j] == m[i]:
      j += 1
    e = j - i
    al, ah = a.lo, a.hi
    if e > 1:
      vals = [al**e, ah**e]
      if e % 2 == 0 and al < 0 < ah:
        vals.append(0)
      al, ah = min(vals), max(vals)
    if lo >= 0 and al >= 0:
      lo, hi = lo * al, hi * ah
    else:
      v = (lo * al, lo * ah, hi * al, hi * ah)
      lo, hi = min(v), max(v)
    i = j
  return lo, hi


def p_range(p):
  lo = hi = 0
  for m, c in p.items():
    if not m:
      lo += c
      hi += c
      continue
    l, h = m_range(m)
    if c > 0:
      lo += c * l
      hi += c * h
    else:
      lo += c * h
      hi += c * l
  return lo, hi


def p_atoms(p):
  s = set()
  for m in p:
    s.update(m)
  return s


# ------------------------------------------------------------------------ Sym
class Sym:
  __slots__ = ('p', 'lo', 'hi', 'm')

  def __init__(self, p, lo=None, hi=None, m=None):
    self.p, self.lo, self.hi, self.m = p, lo, hi, m

  def __repr__(self):
    return f'Sym({show(self.p)},[{self.lo},{self.hi}],m={self.m})'

  # Python operators: exact unbounded integer arithmetic (spec side).
  def __add__(self, o):
    return add(self, o)

  __radd__ = __add__

  def __sub__(self, o):
    return sub(self, o)

  def __rsub__(self, o):
    return sub(o, self)

  def __mul__(self, o):
    return mul(self, o)

  __rmul__ = __mul__

  def __neg__(self):
    return sub(0, self)

  def __pow__(self, e):
    r = 1
    for _ in range(int(e)):
      r = mul(r, self)
    return r

  def __floordiv__(self, c):
    return floordiv(self, c)

  def __mod__(self, c):
    return mod(self, c)

  def __rshift__(self, k):
    return floordiv(self, 1 << int(k))

  def __lshift__(self, k):
    return mul(self, 1 << int(k))

  def __bool__(self):
    raise Unsupported('truth value of a symbolic term')

  def __int__(self):
    raise Unsupported('int() of a symbolic term')

  __index__ = __int__


def show(p, n=8):
  a = CTX.atoms
  parts = []
  for m, c in list(p.items())[:n]:
    parts.append(f'{c}' + ''.join('*' + a[i].name for i in m))
  return ' + '.join(parts) + (' ...' if len(p) > n else '') or '0'


def is_sym(x):
  return isinstance(x, Sym)


def mk(p, lo=None, hi=None):
  """Exact Sym or int from a polynomial and a structural interval."""
  if not p:
    return 0
  if len(p) == 1 and ONE in p:
    return p[ONE]
  l, h = p_range(p)
  if lo is not None and lo > l:
    l = lo
  if hi is not None and hi < h:
    h = hi
  if l == h:
    return l
  return Sym(p, l, h)


def poly(x):
  if isinstance(x, Sym):
    if x.m is not None:
      raise Unsupported('inexact term used as exact')
    return x.p
  x = int(x)
  return {ONE: x} if x else {}


def lo_(x):
  return x.lo if isinstance(x, Sym) else int(x)


def hi_(x):
  return x.hi if isinstance(x, Sym) else int(x)


def var(name, lo, hi, samp=None):
  if lo == hi:
    return lo
  a = CTX.new(name, lo, hi, 'in', None, samp)
  return Sym({(a.id,): 1}, lo, hi)


def add(a, b):
  if not isinstance(a, Sym) and not isinstance(b, Sym):
    return int(a) + int(b)
  return mk(p_add(poly(a), poly(b)), lo_(a) + lo_(b), hi_(a) + hi_(b))


def sub(a, b):
  if not isinstance(a, Sym) and not isinstance(b, Sym):
    return int(a) - int(b)
  return mk(p_add(poly(a), poly(b), -1), lo_(a) - hi_(b), hi_(a) - lo_(b))


def _prod_range(a, b):
  al, ah, bl, bh = lo_(a), hi_(a), lo_(b), hi_(b)
  v = (al * bl, al * bh, ah * bl, ah * bh)
  return min(v), max(v)


def mul(a, b):
  if not isinstance(a, Sym) and not isinstance(b, Sym):
    return int(a) * int(b)
  lo, hi = _prod_range(a, b)
  return mk(p_mul(poly(a), poly(b)), lo, hi)


def total(xs):
  """Sum of many exact terms."""
  r = {}
  lo = hi = 0
  for x in xs:
    if isinstance(x, Sym):
      if x.m is not None:
        raise Unsupported('inexact')
      for m, c in x.p.items():
        r[m] = r.get(m, 0) + c
      lo += x.lo
      hi += x.hi
    else:
      x = int(x)
      r[ONE] = r.get(ONE, 0) + x
      lo += x
      hi += x
  return mk({m: c for m, c in r.items() if c}, lo, hi)


def dot(xs, ys):
  r = {}
  lo = hi = 0
  for x, y in zip(xs, ys):
    if not isinstance(x, Sym) and not isinstance(y, Sym):
      v = int(x) * int(y)
      r[ONE] = r.get(ONE, 0) + v
      lo += v
      hi += v
      continue
    if (not isinstance(x, Sym) and x == 0) or (
        not isinstance(y, Sym) and y == 0
    ):
      continue
    p_mul_into(r, poly(x), poly(y))
    l, h = _prod_range(x, y)
    lo += l
    hi += h
  return mk({m: c for m, c in r.items() if c}, lo, hi)


# ----------------------------------------------------------- defined atoms
def _split_div(p, c):
  """p = c*q + r with q collecting what divides evenly."""
  q, r = {}, {}
  for m, k in p.items():
    if k % c == 0:
      q[m] = k // c
    else:
      r[m] = k
  return q, r


def floordiv(a, c):
  """floor(a/c) for a positive integer c."""
  if isinstance(c, Sym):
    raise Unsupported('symbolic divisor')
  c = int(c)
  if c <= 0:
    if c == 0:
      raise ZeroDivisionError
    return floordiv(sub(0, a), -c)
  if not isinstance(a, Sym):
    return int(a) // c
  if c == 1:
    return a
  if a.lo // c == a.hi // c:
    return a.lo // c
  lo, hi = a.lo // c, a.hi // c
  q, r = _split_div(poly(a), c)
  rl, rh = p_range(r)
  if rl // c == rh // c:
    return mk(p_add(q, p_const(rl // c)), lo, hi)
  # structural remainder interval: a - c*q
  if q:
    ql, qh = p_range(q)
    sl, sh = a.lo - c * qh, a.hi - c * ql
    sl, sh = max(sl, rl), min(sh, rh)
    if sl // c == sh // c:
      return mk(p_add(q, p_const(sl // c)), lo, hi)
  # symmetric reduction of the remaining coefficients
  q2, r2 = dict(q), {}
  for m, k in r.items():
    kk = k % c
    if kk > c // 2:
      kk -= c
    d = (k - kk) // c
    if d:
      q2[m] = q2.get(m, 0) + d
    if kk:
      r2[m] = kk
  rl2, rh2 = p_range(r2)
  if rh2 - rl2 < rh - rl:
    q, r, rl, rh = {m: k for m, k in q2.items() if k}, r2, rl2, rh2
    if rl // c == rh // c:
      return mk(p_add(q, p_const(rl // c)), lo, hi)
  # constant part into [0,c)
  if ONE in r:
    k0 = r[ONE]
    d = k0 // c
    if d:
      q = p_add(q, p_const(d))
      r = dict(r)
      if k0 - d * c:
        r[ONE] = k0 - d * c
      else:
        del r[ONE]
      rl, rh = rl - d * c, rh - d * c
  g = 0
  for m, k in r.items():
    if m:
      g = math.gcd(g, k)
  g = math.gcd(g, c)
  if g > 1:  # floor((g*X + k0)/c) = floor((X + floor(k0/g))/(c/g))
    r = {m: (k // g) for m, k in r.items()}
    r = {m: k for m, k in r.items() if k}
    return mk(p_add(q, poly(floordiv(mk(r), c // g))), lo, hi)
  # nested floors: floor((floor(X/d)+k0)/c) = floor((X+d*k0)/(c*d))
  if len(r) <= 12:
    divs = [m for m in r if len(m) == 1 and r[m] == 1
            and CTX.atoms[m[0]].kind == 'div']
    if len(divs) == 1:
      x, d = CTX.atoms[divs[0][0]].defn
      if len(x) + len(r) <= 12:
        rest = dict(r)
        del rest[divs[0]]
        inner = floordiv(mk(p_add(x, p_scale(rest, d))), c * d)
        return mk(p_add(q, poly(inner)), lo, hi)
  if CTX.narrow and q and hi - lo == 1 and rh // c - rl // c > 1:
    # keep the narrow quotient whole: its two values say more than the parts
    q, r, rl, rh = {}, poly(a), a.lo, a.hi
  whole = not q and a.p == r
  key = ('div', p_key(r), c)
  at = CTX.cons.get(key)
  if at is None:
    at = CTX.new(f'q{len(CTX.atoms)}', rl // c, rh // c, 'div', (r, c))
    CTX.cons[key] = at
  if whole:
    l, h = CTX.div_rng.get(at.id, (a.lo, a.hi))
    CTX.div_rng[at.id] = max(l, a.lo), min(h, a.hi)
  # the enclosing interval may be tighter than the atom's own
  if not q:
    if lo > at.lo:
      at.lo = lo
    if hi < at.hi:
      at.hi = hi
  return mk(p_add(q, {(at.id,): 1}), lo, hi)


def tighten(x):
  """x with the interval got by splitting on a two-valued quotient in it.

  For x = t + k*q + const (or -t + ...) with q = floor(t/c) in {l, l+1}.
  """
  if not isinstance(x, Sym) or x.m is not None:
    return x
  for m, k in x.p.items():
    if len(m) != 1:
      continue
    a = CTX.atoms[m[0]]
    if a.kind != 'div' or a.hi - a.lo != 1:
      continue
    t, c = a.defn
    for sg in (1, -1):
      d = p_add(x.p, t, -sg)
      kk = d.pop(m, 0)
      if any(d):
        continue
      c0 = d.get(ONE, 0)
      tl, th = p_range(t)
      wl, wh = CTX.div_rng.get(a.id, (tl, th))
      tl, th = max(tl, wl), min(th, wh)
      lo = hi = None
      for v in (a.lo, a.hi):
        bl, bh = max(tl, v * c), min(th, v * c + c - 1)
        if bl > bh:
          continue
        e = (sg * bl, sg * bh)
        l, h = min(e) + kk * v + c0, max(e) + kk * v + c0
        lo = l if lo is None else min(lo, l)
        hi = h if hi is None else max(hi, h)
      if lo is not None:
        return mk(x.p, max(lo, x.lo), min(hi, x.hi))
  return x


def mod(a, c):
  c = int(c)
  if not isinstance(a, Sym):
    return int(a) % c
  q = floordiv(a, c)
  r = sub(a, mul(q, c))
  if isinstance(r, Sym):
    lo, hi = max(r.lo, 0), min(r.hi, c - 1)
    return mk(r.p, lo, hi)
  return r


def divmod_sym(a, b):
  """floor division by a symbolic positive divisor (nonlinear definition)."""
  if not isinstance(b, Sym):
    return floordiv(a, b), mod(a, b)
  if b.lo <= 0:
    raise Unsupported('symbolic divisor may be <= 0')
  key = ('sdiv', p_key(poly(a)), p_key(b.p))
  t = CTX.cons.get(key)
  if t is None:
    al, ah = lo_(a), hi_(a)
    v = [al // b.lo, al // b.hi, ah // b.lo, ah // b.hi]
    at = CTX.new(f'sd{len(CTX.atoms)}', min(v), max(v), 'sdiv',
                 (poly(a), b.p))
    CTX.cons[key] = at
  else:
    at = t
  q = mk({(at.id,): 1}, at.lo, at.hi)
  r = sub(a, mul(q, b))
  if isinstance(r, Sym):
    r = mk(r.p, max(r.lo, 0), min(r.hi, b.hi - 1))
  return q, r


def _gcd_norm(p):
  g = 0
  for m, k in p.items():
    if m:
      g = math.gcd(g, k)
  return g


def ge0(p, lo=None, hi=None):
  """0/1 term for p >= 0."""
  if not p:
    return 1
  l, h = p_range(p)
  if lo is not None:
    l = max(l, lo)
  if hi is not None:
    h = min(h, hi)
  if l >= 0:
    return 1
  if h < 0:
    return 0
  g = _gcd_norm(p)
  if g > 1:
    p = {m: (k // g) for m, k in p.items()}
    p = {m: k for m, k in p.items() if k}
  # b >= 1  is b ; -b >= 0 is 1-b
  if len(p) <= 2:
    nonconst = [m for m in p if m]
    if len(nonconst) == 1 and all(i in CTX.bools for i in nonconst[0]):
      k, c = p[nonconst[0]], p.get(ONE, 0)
      v0, v1 = c >= 0, k + c >= 0
      t = mk({nonconst[0]: 1}, 0, 1)
      if v0 and v1:
        return 1
      if not v0 and not v1:
        return 0
      return t if v1 else sub(1, t)
  key = ('ge', p_key(p))
  at = CTX.cons.get(key)
  if at is None:
    # complement: not(p>=0)  <=>  -p-1 >= 0
    neg = p_add(p_scale(p, -1), p_const(-1))
    at2 = CTX.cons.get(('ge', p_key(neg)))
    if at2 is not None:
      return Sym({ONE: 1, (at2.id,): -1}, 0, 1)
    at = CTX.new(f'b{len(CTX.atoms)}', 0, 1, 'ge', p)
    CTX.cons[key] = at
    if g <= 1:
      CTX.ge_rng[at.id] = (l, h)
  return Sym({(at.id,): 1}, 0, 1)


def ge(a, b):
  if not isinstance(a, Sym) and not isinstance(b, Sym):
    return int(int(a) >= int(b))
  return ge0(
      p_add(poly(a), poly(b), -1), lo_(a) - hi_(b), hi_(a) - lo_(b)
  )


def eq(a, b):
  if not isinstance(a, Sym) and not isinstance(b, Sym):
    return int(int(a) == int(b))
  p = p_add(poly(a), poly(b), -1)
  if not p:
    return 1
  l, h = p_range(p)
  l, h = max(l, lo_(a) - hi_(b)), min(h, hi_(a) - lo_(b))
  if l > 0 or h < 0:
    return 0
  g = _gcd_norm(p)
  k0 = p.get(ONE, 0)
  if g == 0:
    return int(k0 == 0)
  if k0 % g:
    return 0
  if g > 1:
    p = {m: k // g for m, k in p.items()}
  nonconst = [m for m in p if m]
  if len(nonconst) == 1 and all(i in CTX.bools for i in nonconst[0]):
    t = mk({nonconst[0]: 1}, 0, 1)
    k, c = p[nonconst[0]], p.get(ONE, 0)
    if k + c == 0:
      return t if c != 0 else sub(1, t)
    if c == 0:
      return sub(1, t)
    return 0
  # one-sided at an interval end: keep as >=
  if l >= 0:
    return ge0(p_scale(p, -1))
  if h <= 0:
    return ge0(p)
  first = min(m for m in p if m)
  if p[first] < 0:
    p = p_scale(p, -1)
  key = ('eq', p_key(p))
  at = CTX.cons.get(key)
  if at is None:
    at = CTX.new(f'e{len(CTX.atoms)}', 0, 1, 'eq', p)
    CTX.cons[key] = at
  return Sym({(at.id,): 1}, 0, 1)


def b_not(a):
  return sub(1, a)


def b_and(a, b):
  r = mul(a, b)
  return clampb(r)


def clampb(r):
  if isinstance(r, Sym):
    return mk(r.p, 0, 1)
  return r


def b_or(a, b):
  return clampb(sub(add(a, b), mul(a, b)))


def _refine(cond, a, b):
  """Intervals of a given cond=1 and b given cond=0."""
  al, ah, bl, bh = lo_(a), hi_(a), lo_(b), hi_(b)
  if isinstance(cond, Sym):
    items = list(cond.p.items())
    pos = None
    if len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 1:
      pos = (items[0][0][0], True)
    elif (
        len(items) == 2
        and cond.p.get(ONE) == 1
        and [c for m, c in items if m] == [-1]
    ):
      m = [m for m, c in items if m][0]
      if len(m) == 1:
        pos = (m[0], False)
    if pos is not None:
      at = CTX.atoms[pos[0]]
      if at.kind == 'ge':
        t, f = at.defn, p_add(p_scale(at.defn, -1), p_const(-1))
        if not pos[1]:
          t, f = f, t
        # under cond: t >= 0 ; else f >= 0
        al, ah = _refine1(a, t, al, ah)
        bl, bh = _refine1(b, f, bl, bh)
      elif at.kind == 'eq':
        t = at.defn
        if pos[1]:
          al, ah = _refine1(a, t, al, ah)
          al, ah = _refine1(a, p_scale(t, -1), al, ah)
        else:
          bl, bh = _refine1(b, t, bl, bh)
          bl, bh = _refine1(b, p_scale(t, -1), bl, bh)
  return al, ah, bl, bh


def _refine1(x, t, lo, hi):
  """Given t >= 0, tighten [lo,hi] of x when x = k*t + const (k=+-g)."""
  if not isinstance(x, Sym) or not t:
    return lo, hi
  px = x.p
  m0 = next((m for m in t if m), None)
  if m0 is None or m0 not in px:
    return lo, hi
  kn, kd = px[m0], t[m0]
  # x*kd' = kn*t + const : require proportional nonconstant parts
  if kn % kd:
    return lo, hi
  k = kn // kd
  d = p_add(px, t, -k)
  if any(m for m in d):
    # allow leftover with known range
    l, h = p_range(d)
  else:
    l = h = d.get(ONE, 0)
  if k > 0:
    lo = max(lo, l)
  elif k < 0:
    hi = min(hi, h)
  return lo, hi


def under(cond, x, branch, w, lo, hi):
  """x, known modulo 2^w, as an exact term valid where cond == branch.

  Only for cond a single comparison t >= 0 and x = +-t + constant (mod 2^w);
  None when that does not place x in [lo, hi].
  """
  items = list(cond.p.items())
  pos = None
  if len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 1:
    pos = (items[0][0][0], True)
  elif len(items) == 2 and cond.p.get(ONE) == 1:
    m, k = [(m, k) for m, k in items if m][0]
    if k == -1 and len(m) == 1:
      pos = (m[0], False)
  if pos is None or CTX.atoms[pos[0]].kind != 'ge':
    return None
  rng = CTX.ge_rng.get(pos[0])
  if rng is None:
    return None
  t = CTX.atoms[pos[0]].defn
  if pos[1] == bool(branch):
    u, uh = t, rng[1]
  else:
    u, uh = p_add(p_scale(t, -1), p_const(-1)), -rng[0] - 1
  n = 1 << w
  for sgn in (1, -1):
    d = p_mod(p_add(x.p, u, -sgn), n)
    if any(m for m in d):
      continue
    c = d.get(ONE, 0) % n
    l0, h0 = (0, uh) if sgn > 0 else (-uh, 0)
    for cc in (c, c - n):
      if lo <= l0 + cc and h0 + cc <= hi:
        return Sym(p_add(p_scale(u, sgn), p_const(cc)), l0 + cc, h0 + cc)
  return None


def ite(c, a, b):
  """c ? a : b for 0/1 c, exact a, b."""
  if not isinstance(c, Sym):
    return a if int(c) else b
  if not isinstance(a, Sym) and not isinstance(b, Sym) and int(a) == int(b):
    return a
  if isinstance(a, Sym) and isinstance(b, Sym) and a.p == b.p:
    return a
  al, ah, bl, bh = _refine(c, a, b)
  lo, hi = min(al, bl), max(ah, bh)
  d = p_add(poly(a), poly(b), -1)
  r = p_add(poly(b), p_mul(c.p, d))
  return mk(r, lo, hi)


def name(a, tag='n'):
  """Give a term a name (a fresh atom defined equal to it)."""
  if not isinstance(a, Sym):
    return a
  if len(a.p) == 1:
    return a
  key = ('name', p_key(a.p))
  at = CTX.cons.get(key)
  if at is None:
    at = CTX.new(f'{tag}{len(CTX.atoms)}', a.lo, a.hi, 'name', a.p)
    CTX.cons[key] = at
  at.lo, at.hi = max(at.lo, a.lo), min(at.hi, a.hi)
  return mk({(at.id,): 1}, at.lo, at.hi)


def fn(tag, args, func, lo, hi):
  """An uninterpreted function of terms; func gives its concrete value."""
  ps = tuple(poly(a) for a in args)
  key = ('fn', tag, tuple(p_key(p) for p in ps))
  at = CTX.cons.get(key)
  if at is None:
    at = CTX.new(f'{tag}{len(CTX.atoms)}', lo, hi, 'fn', (ps, func))
    CTX.cons[key] = at
  return mk({(at.id,): 1}, lo, hi)


# ------------------------------------------------------------- evaluation
def evaluate(p, env):
  """Value of polynomial p when input atoms take env[id]."""
  s = 0
  for m, c in p.items():
    v = c
    for i in m:
      v *= atom_val(i, env)
      if v == 0:
        break
    s += v
  return s


def atom_val(i, env):
  v = env.get(i)
  if v is not None:
    return v
  # iterative to avoid deep recursion
  stack = [i]
  atoms = CTX.atoms
  while stack:
    j = stack[-1]
    if j in env:
      stack.pop()
      continue
    a = atoms[j]
    if a.kind == 'in':
      raise KeyError(f'no value for input atom {a.name}')
    if a.kind == 'div':
      need = p_atoms(a.defn[0])
    elif a.kind == 'sdiv':
      need = p_atoms(a.defn[0]) | p_atoms(a.defn[1])
    elif a.kind == 'fn':
      need = set().union(*[p_atoms(p) for p in a.defn[0]])
    else:
      need = p_atoms(a.defn)
    miss = [k for k in need if k not in env]
    if miss:
      stack.extend(miss)
      continue
    if a.kind == 'div':
      env[j] = _ev(a.defn[0], env) // a.defn[1]
    elif a.kind == 'sdiv':
      env[j] = _ev(a.defn[0], env) // _ev(a.defn[1], env)
    elif a.kind == 'ge':
      env[j] = int(_ev(a.defn, env) >= 0)
    elif a.kind == 'eq':
      env[j] = int(_ev(a.defn, env) == 0)
    elif a.kind == 'name':
      env[j] = _ev(a.defn, env)
    elif a.kind == 'fn':
      env[j] = a.defn[1](*[_ev(p, env) for p in a.defn[0]])
    else:
      raise KeyError(a.kind)
    stack.pop()
  return env[i]


def _ev(p, env):
  s = 0
  for m, c in p.items():
    v = c
    for i in m:
      v *= env[i]
    s += v
  return s


def value(x, env):
  if isinstance(x, Sym):
    return evaluate(x.p, env)
  return int(x)


def sample_env(rng, mode=None):
  """A random assignment to the input atoms (biased to corners)."""
  env = {}
  for a in CTX.atoms:
    if a.kind != 'in':
      continue
    if a.samp is not None:
      env[a.id] = a.samp(rng)
      continue
    r = rng.random()
    if mode == 'hi':
      r = 0.1
    if mode == 'lo':
      r = 0.3
    if r < 0.2:
      v = a.hi - (rng.randrange(3) if a.hi - a.lo > 3 else 0)
    elif r < 0.4:
      v = a.lo + (rng.randrange(3) if a.hi - a.lo > 3 else 0)
    elif r < 0.5 and a.lo < 0 < a.hi:
      v = 0
    else:
      v = rng.randint(a.lo, a.hi)
    env[a.id] = v
  return env


def closure(polys):
  """All atoms reachable from the polynomials through definitions."""
  seen = set()
  todo = []
  for p in polys:
    todo.extend(p_atoms(p))
  atoms = CTX.atoms
  while todo:
    i = todo.pop()
    if i in seen:
      continue
    seen.add(i)
    a = atoms[i]
    if a.kind == 'div':
      todo.extend(p_atoms(a.defn[0]))
    elif a.kind == 'sdiv':
      todo.extend(p_atoms(a.defn[0]))
      todo.extend(p_atoms(a.defn[1]))
    elif a.kind in ('ge', 'eq', 'name'):
      todo.extend(p_atoms(a.defn))
    elif a.kind == 'fn':
      for p in a.defn[0]:
        todo.extend(p_atoms(p))
  return seen
