"""E09: reference field elements."""
JOBS = 8
ASSUMPTIONS = [
    'The listed moduli are prime, so that b^(p-2) b = 1 modulo p for b not '
    '0 (Fermat); modular exponentiation with that exponent is gmpy2\'s.',
    'gmpy2 integers behave like Python integers.',
    'Montgomery operands are in Montgomery form; division is by an element '
    'that is not zero.',
]

from checks.ecc import *
from jaxite.jaxite_ec.algorithm import big_integer, finite_field as rf
from jaxite.jaxite_ec.algorithm import lazy_reduction
from jv import pysym as P

CTX = P.PyCtx(lambda: [big_integer, rf, lazy_reduction])
BI = big_integer.GMPBigInteger
PLAIN, BARR, MONT = (rf.FiniteFieldElement, rf.FiniteFieldElementBarrett,
                     rf.FiniteFieldElementMontgomery)
NAME = {PLAIN: 'plain', BARR: 'Barrett', MONT: 'Montgomery'}
PRIMES = {'97': 97, '2^64+13': 2**64 + 13, '2^61-1': 2**61 - 1,
          'BLS12-377': P377}
MORE = {'3': 3, '65537': 65537, '2^127-1': 2**127 - 1,
        'secp256k1': 2**256 - 2**32 - 977}

ALL = {**PRIMES, **MORE}


def inv(b, p):
  return T.fn(f'inv{p}', [T.mod(b, p)], lambda v: pow(int(v), p - 2, p), 0,
              p - 1)


def prime_power(a, e, m):
  """pow(a, p-2, p) or pow(a, -1, p): the inverse of a."""
  if m not in ALL.values() or e not in (m - 2, -1):
    return None
  if e == -1 and P.EX.decide(T.eq(T.mod(a, m), 0)):
    raise ValueError('base is not invertible for the given modulus')
  return inv(a, m)


def ele(cls, v, p, kind=int):
  """The element whose stored value is v."""
  e = cls(0, kind(p))
  if cls is MONT:
    e.value = BI(v)
    return e
  e.set_value(v)
  return e


def plain(e):
  """The number the element stands for."""
  if type(e) is MONT:
    return e.de_montgomeryize(e.value).value
  return e.value.value


def rad(cls, p):
  return 1 << (p - 1).bit_length() if cls is MONT else 1


def canon(label, v, p):
  return (f'{label} canonical', smt.In(v, 0, p - 1))


def cong(label, t, p):
  return (label, smt.Eq(T.mod(t, p), 0))


OPS = {
    'add': (lambda a, b: a + b, lambda a, b, r, p: T.sub(T.add(a, b), r)),
    'sub': (lambda a, b: a - b, lambda a, b, r, p: T.sub(T.sub(a, b), r)),
    'mul': (lambda a, b: a * b, None),
    'div': (lambda a, b: a / b, None),
    'square': (lambda a, b: a * a, None),
    'self difference': (lambda a, b: a - a, lambda a, b, r, p: r),
}


def op(cls, name, p, tag, kind=int):
  R = rad(cls, p)
  f, res = OPS[name]
  lo = 1 if name == 'div' else 0

  def call(a, b):
    x, y = ele(cls, a, p, kind), ele(cls, b, p, kind)
    z = f(x, y)
    return [z.value.value, z.prime.value, x.value.value, y.value.value,
            plain(y)]

  def inputs():
    P.POWMOD = prime_power
    return [P.pvar('a', (), 0, p - 1), P.pvar('b', (), lo, p - 1)]

  def goals(ins, outs):
    a, b = ins[0].x[()], ins[1].x[()]
    o = [v.x[()] for v in outs]
    z = o[0]
    if name == 'mul':
      t = T.sub(T.mul(a, b), T.mul(z, R))
    elif name == 'square':
      t = T.sub(T.mul(a, a), T.mul(z, R))
    elif name == 'div':
      t = T.mul(T.sub(T.mul(a, inv(o[4], p)), z), R)
    else:
      t = res(a, b, z, p)
    g = [canon(name, z, p), cong(name, t, p), ('prime', smt.Eq(o[1], p)),
         ('first operand', smt.Eq(o[2], a)),
         ('second operand', smt.Eq(o[3], b)),
         cong('plain value', T.sub(T.mul(o[4], R), b), p)]
    return g

  return Obl(f'{NAME[cls]} {name} p={tag}'
             + (' (big-integer prime)' if kind is BI else ''),
             call, inputs, goals, mode='py', pyctx=CTX,
             max_paths=100,
             encoded=[getattr(cls, '__truediv__' if name == 'div' else
                              f'__{name}__' if name in ('add', 'sub', 'mul')
                              else '__mul__')],
             bounds='every pair of elements')


PROGS = {
    '(a+b)c-a': (lambda a, b, c: (a + b) * c - a,
                 lambda a, b, c: T.sub(T.mul(T.add(a, b), c), a)),
    '(a-b)(a+b)+c': (lambda a, b, c: (a - b) * (a + b) + c,
                     lambda a, b, c: T.add(T.sub(T.mul(a, a), T.mul(b, b)),
                                           c)),
    'a-(b-c)+(a+a)': (lambda a, b, c: a - (b - c) + (a + a),
                      lambda a, b, c: T.sub(T.add(T.mul(3, a), c), b)),
    'abc': (lambda a, b, c: a * b * c,
            lambda a, b, c: T.mul(T.mul(a, b), c)),
    'copies': (lambda a, b, c: a.copy() * c.copy() + b.copy(),
               lambda a, b, c: T.add(T.mul(a, c), b)),
}


def program(cls, name, p, tag, kind=int, k=None):
  """A small sequence of operations on elements built from plain integers."""
  f, spec = PROGS[name]

  def mk(v):
    if k is not None:
      return cls(v, kind(p), k)
    return cls(v, kind(p))

  def call(a, b, c):
    x, y, z = mk(a), mk(b), mk(c)
    w = f(x, y, z)
    return [w.value.value, plain(w), plain(x), plain(y), plain(z)]

  def goals(ins, outs):
    v = [a.x[()] for a in ins]
    o = [a.x[()] for a in outs]
    return [canon('stored', o[0], p), canon('value', o[1], p),
            cong('value', T.sub(o[1], spec(*v)), p)] + [
                (f'operand {i}', smt.Eq(o[2 + i], v[i])) for i in range(3)]
  return Obl(f'{NAME[cls]} {name} p={tag}' + (
      f' k={k}' if k is not None else '') + (
      ' (big-integer prime)' if kind is BI else ''), call,
             lambda: [P.pvar(x, (), 0, p - 1) for x in 'abc'], goals,
             mode='py', pyctx=CTX, max_paths=200,
             encoded=[cls.__init__, cls.__add__, cls.__sub__, cls.__mul__,
                      cls.copy],
             bounds='every three elements')


def power(cls, e, p, tag):
  def call(a):
    x = cls(a, p)
    y = x ** e
    return [y.value.value, plain(y), plain(x)]

  def inputs():
    P.POWMOD = prime_power
    return [P.pvar('a', (), 1 if e < 0 else 0, p - 1)]

  def goals(ins, outs):
    a = ins[0].x[()]
    o = [v.x[()] for v in outs]
    if e < 0:
      w = inv(a, p)
    else:
      w = 1
      for _ in range(e):
        w = T.mul(w, a)
    return [canon('stored', o[0], p), canon('value', o[1], p),
            cong('power', T.sub(o[1], w), p),
            ('operand', smt.Eq(o[2], a))]
  return Obl(f'{NAME[cls]} power {e} p={tag}', call, inputs, goals,
             mode='py', pyctx=CTX, encoded=[cls.__pow__], max_paths=100,
             bounds='every element')


def equality(cls, p, tag):
  def call(a, b):
    x, y = cls(a, p), cls(b, p)
    return [bool(x == y), bool(x == cls(a, p))]

  def goals(ins, outs):
    a, b = ins[0].x[()], ins[1].x[()]
    return [('equal exactly when the values are',
             smt.Eq(outs[0].x[()], T.eq(a, b))),
            ('equal to itself', smt.Eq(outs[1].x[()], 1))]
  return Obl(f'{NAME[cls]} equality p={tag}', call,
             lambda: [P.pvar('a', (), 0, p - 1), P.pvar('b', (), 0, p - 1)],
             goals, mode='py', pyctx=CTX, encoded=[cls.__eq__],
             bounds='every pair', max_paths=100)


def refuse(cls, p, tag, how):
  """Values outside [0, p) are refused, those inside taken."""
  def call(a):
    if how == 'constructor':
      x = cls(a, p)
    elif how == 'big integer':
      x = cls(BI(a), BI(p))
    else:
      x = PLAIN(0, p)
      x.set_value(a)
    return [plain(x)]

  def goals(ins, outs):
    a = ins[0].x[()]
    return [('accepted only in range', smt.In(a, 0, p - 1)),
            ('value', smt.Eq(outs[0].x[()], a))]

  def on_raise(ins, e):
    a = ins[0].x[()]
    return [('refused only out of range',
             smt.Or(smt.Le(a, -1), smt.Le(p, a)))]
  return Obl(f'{NAME[cls]} range by {how} p={tag}', call,
             lambda: [P.pvar('a', (), -2 * p, 3 * p)], goals,
             raises=(ValueError,), on_raise=on_raise, mode='py', pyctx=CTX,
             encoded=[cls.__init__, PLAIN.set_value], max_paths=60,
             bounds='every integer from -2p to 3p')


def mixed(cls, name):
  """Elements of different fields are refused."""
  st = {}
  f = OPS[name][0]

  def inputs(c):
    st['c'] = c
    return [P.pvar('a', (), 0, 96), P.pvar('b', (), 0, 96)]

  def call(a, b):
    return f(cls(a, 97), cls(b, 97 if st['c'] else 101)).value.value
  return Obl(f'{NAME[cls]} {name}: elements of different fields are refused',
             call, inputs,
             lambda i, o: [('accepted', smt.TRUE if st['c'] else smt.FALSE)],
             raises=(ValueError,),
             on_raise=lambda i, e: [('refused', smt.FALSE if st['c']
                                     else smt.TRUE)],
             cases=[True, False], mode='py', pyctx=CTX, max_paths=60,
             encoded=[getattr(cls, f'__{name}__')],
             bounds='every pair of elements')


COPY = {
    'plain': (PLAIN, {}, -3, 3, lambda v, p: v),
    'Barrett stored': (BARR, {}, 0, 1, lambda v, p: v),
    'Barrett reduced': (BARR, dict(reduction=True), 0, None, lambda v, p: v),
    'Montgomery transformed': (MONT, dict(transform=True), -3, 3,
                               lambda v, p: v),
    'Montgomery stored': (MONT, {}, 0, 1,
                          lambda v, p: T.mul(v, pow(rad(MONT, p), -1, p))),
    'Montgomery reduced': (MONT, dict(reduction=True), 0, None,
                           lambda v, p: T.mul(v, pow(rad(MONT, p), -2, p))),
}


def copied(name, p, tag):
  """copy(value): an element of that value; the original is untouched."""
  cls, kw, lo, hi, spec = COPY[name]

  def call(a, v):
    x = cls(a, p)
    y = x.copy(v, **kw)
    z = x.copy()
    r = [y.value.value, plain(y), plain(z), y.prime.value]
    z.value = BI(1)
    return r + [plain(x)]

  def inputs():
    return [P.pvar('a', (), 0, p - 1),
            P.pvar('v', (), lo * p, p * p - 1 if hi is None else hi * p - 1)]

  def goals(ins, outs):
    a, v = ins[0].x[()], ins[1].x[()]
    o = [x.x[()] for x in outs]
    return [canon('stored', o[0], p), canon('value', o[1], p),
            cong('value', T.sub(o[1], spec(v, p)), p),
            ('plain copy', smt.Eq(o[2], a)), ('prime', smt.Eq(o[3], p)),
            ('original', smt.Eq(o[4], a))]
  return Obl(f'copy {name} p={tag}', call, inputs, goals, mode='py',
             pyctx=CTX, encoded=[cls.copy], max_paths=100,
             bounds='every element and every value, from '
             f'{lo}p to ' + ('p^2' if hi is None else f'{hi}p'))


def form(p, tag):
  """Montgomery form there and back."""
  def call(a):
    x = MONT(a, p)
    bar = x.montgomeryize(BI(a)).value
    s = [x.value.value, bar, x.de_montgomeryize(BI(bar)).value,
         x.one_bar.value]
    x.change_montgomery_form()
    s += [x.value.value]
    x.change_montgomery_form()
    return s + [x.value.value, plain(x)]

  def goals(ins, outs):
    a, R = ins[0].x[()], rad(MONT, p)
    o = [x.x[()] for x in outs]
    w = T.mod(T.mul(a, R), p)
    return [('stored', smt.Eq(o[0], w)), ('montgomeryize', smt.Eq(o[1], w)),
            ('back', smt.Eq(o[2], a)), ('one', smt.Eq(o[3], R % p)),
            ('changed', smt.Eq(o[4], a)), ('changed back', smt.Eq(o[5], w)),
            ('value', smt.Eq(o[6], a))]
  return Obl(f'Montgomery form p={tag}', call,
             lambda: [P.pvar('a', (), 0, p - 1)], goals, mode='py',
             pyctx=CTX, max_paths=60,
             encoded=[MONT.montgomeryize, MONT.de_montgomeryize,
                      MONT.change_montgomery_form],
             bounds='every element')


def reduction(cls, p, tag):
  """The reduction routines over their whole domain."""
  R = rad(cls, p)
  top = p * p - 1 if cls is BARR else p * R - 1

  def call(x):
    e = cls(0, p)
    f = e.barrett_reduction if cls is BARR else e.montgomery_reduction
    return f(BI(x)).value

  def goals(ins, outs):
    x, o = ins[0].x[()], outs[0].x[()]
    return [canon('reduced', o, p),
            cong('reduced', T.sub(T.mul(o, R), x), p)]
  return Obl(f'{NAME[cls]} reduction p={tag}', call,
             lambda: [P.pvar('x', (), 0, top)], goals, mode='py', pyctx=CTX,
             encoded=[BARR.barrett_reduction if cls is BARR
                      else MONT.montgomery_reduction],
             bounds='every product ' + ('below p^2' if cls is BARR
                                        else 'below pR'))


W = 1 << 400
BIG = {
    'add': (lambda x, y: x + y, T.add),
    'sub': (lambda x, y: x - y, T.sub),
    'mul': (lambda x, y: x * y, T.mul),
}
CMP = {
    '==': (lambda x, y: x == y, lambda a, b: T.eq(a, b)),
    '!=': (lambda x, y: x != y, lambda a, b: T.b_not(T.eq(a, b))),
    '<': (lambda x, y: x < y, lambda a, b: T.b_not(T.ge(a, b))),
    '<=': (lambda x, y: x <= y, lambda a, b: T.ge(b, a)),
    '>': (lambda x, y: x > y, lambda a, b: T.b_not(T.ge(b, a))),
    '>=': (lambda x, y: x >= y, lambda a, b: T.ge(a, b)),
}


def bigint(kind):
  """Integer operators, the right operand a big integer or an int."""
  r = BI if kind == 'big integer' else (lambda v: v)

  def call(a, b):
    x, y = BI(a), r(b)
    return ([f(x, y).value for f, _ in BIG.values()]
            + [f(x, y) for f, _ in CMP.values()]
            + [x.value, BI(x).value, int_(x)])

  def goals(ins, outs):
    a, b = ins[0].x[()], ins[1].x[()]
    want = ([g(a, b) for _, g in BIG.values()]
            + [g(a, b) for _, g in CMP.values()] + [a, a, a])
    o = [v.x[()] for v in outs]
    if len(o) != len(want):
      return [('count', smt.FALSE)]
    names = list(BIG) + list(CMP) + ['operand', 'copy', 'int']
    return [(n, smt.Eq(u, v)) for n, u, v in zip(names, o, want)]
  return Obl(f'big integer operators, {kind}', call,
             lambda: [P.pvar('a', (), -W, W), P.pvar('b', (), -W, W)], goals,
             mode='py', pyctx=CTX, encoded=[BI.__add__, BI.__lt__],
             bounds='every pair of integers up to 2^400', max_paths=100)


def int_(x):
  return x.__int__() if P.EX is None else big_integer.__dict__.get(
      'int', int)(x.value)


DIVS = [1, 2, 3, 97, 2**64 + 13, P377]


def bigdiv(kind):
  r = BI if kind == 'big integer' else (lambda v: v)

  def call(a):
    x = BI(a)
    o = []
    for d in DIVS:
      o += [(x / r(d)).value, (x % r(d)).value]
    for s in (0, 1, 8, 377):
      o += [(x << r(s)).value, (x >> r(s)).value]
    for m in (0, 1, 0xff, (1 << 377) - 1, 6):
      o.append((x & r(m)).value)
    return o

  def goals(ins, outs):
    a = ins[0].x[()]
    w = []
    for d in DIVS:
      w += [T.floordiv(a, d), T.mod(a, d)]
    for s in (0, 1, 8, 377):
      w += [T.mul(a, 1 << s), T.floordiv(a, 1 << s)]
    for m in (0, 1, 0xff, (1 << 377) - 1):
      w.append(T.mod(a, m + 1))
    w.append(T.sub(T.mod(a, 8), T.mod(a, 2)))
    o = [v.x[()] for v in outs]
    if len(o) != len(w):
      return [('count', smt.FALSE)]
    return [(str(i), smt.Eq(u, v)) for i, (u, v) in enumerate(zip(o, w))]
  return Obl(f'big integer division, shifts and masks, {kind}', call,
             lambda: [P.pvar('a', (), 0, 1 << 760)], goals, mode='py',
             pyctx=CTX, encoded=[BI.__truediv__, BI.__mod__, BI.__rshift__,
                                 BI.__lshift__, BI.__and__], max_paths=60,
             bounds='every integer up to 2^760; listed divisors, shifts')


def log2():
  """ceil(log2 x), for x within 40 of every power of two up to 2^400."""
  st = {}

  def inputs(c):
    st['c'] = c
    return [P.pvar('d', (), 1 - min(40, (1 << c) // 2), min(40, 1 << c))]

  def call(d):
    return BI(d + (1 << st['c'])).ceil_log2().value

  def goals(ins, outs):
    d, o = ins[0].x[()], outs[0].x[()]
    return [('log', smt.Eq(o, T.add(st['c'], T.ge(d, 1))))]
  return Obl('ceil_log2', call, inputs, goals, mode='py', pyctx=CTX,
             cases=[0, 1, 2, 5, 16, 52, 53, 54, 64, 127, 256, 377, 400],
             encoded=[BI.ceil_log2], bounds='integers around powers of two',
             max_paths=200)


def zero_division():
  def call(a):
    return (BI(a) / 0).value
  return Obl('big integer division by zero is refused', call,
             lambda: [P.pvar('a', (), -W, W)],
             lambda i, o: [('accepted', smt.FALSE)],
             raises=(ZeroDivisionError,),
             on_raise=lambda i, e: [('refused', smt.TRUE)], mode='py',
             pyctx=CTX, encoded=[BI.__truediv__], bounds='every dividend')


def lazy(p, tag, n=1):
  """lazy_reduction_via_matrix: congruent, and inside the bound again."""
  bound = p * 256 * 256
  t = (p.bit_length() + 7) // 8
  top = min(bound, 1 << (8 * (t + 2)))

  def call(a, b):
    return lazy_reduction.lazy_reduction_via_matrix(P.lst(a), P.lst(b), p)

  def goals(ins, outs):
    g = []
    o = [x.x[()] for x in outs]
    if len(o) != n:
      return [('count', smt.FALSE)]
    for i in range(n):
      g += [(f'{i} inside the bound', smt.In(o[i], 0, top - 1)),
            cong(f'{i} congruent', T.sub(o[i], T.mul(ins[0].x[i],
                                                     ins[1].x[i])), p)]
    return g
  return Obl(f'lazy_reduction_via_matrix p={tag} x{n}', call,
             lambda: [P.pvar('a', (n,), 0, top - 1),
                      P.pvar('b', (n,), 0, top - 1)], goals, mode='py',
             pyctx=CTX, encoded=[lazy_reduction.lazy_reduction_via_matrix,
                                 lazy_reduction.chunk_decomposition],
             bounds='every pair below 2^16 p', timeout=200)


def obligations(tier):
  obs = []
  th = tier != 'quick'
  for tag, p in (ALL if th else PRIMES).items():
    for cls in (PLAIN, BARR, MONT):
      for name in OPS:
        obs.append(op(cls, name, p, tag))
      for name in PROGS:
        if th or cls is PLAIN or p < 2**65 or name != '(a-b)(a+b)+c':
          obs.append(program(cls, name, p, tag))
      for e in (0, 1, 2, 3) + ((4, 5, 7, -1) if th else (-1,)):
        obs.append(power(cls, e, p, tag))
      obs.append(equality(cls, p, tag))
      obs.append(program(cls, 'copies', p, tag, kind=BI))
      if cls is not PLAIN:
        obs.append(reduction(cls, p, tag))
        obs.append(program(cls, 'abc', p, tag, k=p.bit_length() + 2))
      for how in ('constructor', 'big integer', 'set_value'):
        if how != 'set_value' or cls is PLAIN:
          obs.append(refuse(cls, p, tag, how))
    for name in COPY:
      obs.append(copied(name, p, tag))
    obs.append(form(p, tag))
    if p > 2**16:
      obs.append(lazy(p, tag))
  for cls in (PLAIN, BARR, MONT):
    for name in ('add', 'sub', 'mul'):
      obs.append(mixed(cls, name))
  for kind in ('big integer', 'int'):
    obs += [bigint(kind), bigdiv(kind)]
  obs += [log2(), zero_division()]
  return obs
