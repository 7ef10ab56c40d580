"""K06: RNS polynomials."""
JOBS = 8
ASSUMPTIONS = [
    'Degrees 2 to 16 (32 in the thorough tier) and the listed NTT primes; '
    'every coefficient vector is covered.',
]

import numpy as np
from checks.ckks import *
from checks.k03 import primes
from jaxite.jaxite_ckks import rns, rns_utils
from jv import pysym as P

CTX = P.PyCtx(lambda: [rns, rns_utils])


def polys(names, n, ms, lo=0):
  hi = [m - 1 for m in ms for _ in range(n)]
  return [P.pvar(k, (len(ms), n), lo, hi) for k in names]


def mkp(a, n, ms, is_ntt=False):
  return rns.RnsPolynomial(n, list(ms), P.lst(a), is_ntt=is_ntt)


def reduced(label, outs, n, ms, spec):
  g = []
  if len(outs) < n * len(ms):
    return [('count', smt.FALSE)]
  for i, m in enumerate(ms):
    for j in range(n):
      v = outs[i * n + j].x[()]
      g.append((f'{label} {i},{j} value', smt.Cong(v, spec[i][j], m)))
      g.append((f'{label} {i},{j} range', smt.In(v, 0, m - 1)))
  return g


def negacyc(a, b):
  n = len(a)
  return [T.total([T.mul(T.mul(a[i], b[(k - i) % n]), 1 if i <= k else -1)
                   for i in range(n)]) for k in range(n)]


def linear(op, n, ms, form):
  def call(a, b):
    p, q = mkp(a, n, ms, form), mkp(b, n, ms, form)
    r = {'add': lambda: p + q, 'sub': lambda: p - q, 'neg': lambda: -p}[op]()
    return (r.coeffs, p.coeffs, q.coeffs, r.degree, len(r), r.is_ntt,
            list(r.moduli))

  def goals(ins, outs):
    a, b = [i.x for i in ins]
    f = {'add': lambda x, y: T.add(x, y), 'sub': lambda x, y: T.sub(x, y),
         'neg': lambda x, y: T.sub(0, x)}[op]
    k = n * len(ms)
    spec = [[f(a[i, j], b[i, j]) for j in range(n)] for i in range(len(ms))]
    g = reduced(op, outs, n, ms, spec)
    if len(outs) != 3 * k + 3 + len(ms):
      return [('count', smt.FALSE)]
    for w, src in ((k, a), (2 * k, b)):
      for t, v in enumerate(src.ravel()):
        g.append((f'operand unchanged {w},{t}', smt.Eq(outs[w + t].x[()], v)))
    tail = outs[3 * k:]
    for o, v in zip(tail, [n, n, int(form)] + list(ms)):
      g.append((f'metadata {v}', smt.Eq(o.x[()], v)))
    return g
  return Obl(f'{op} N={n} ntt={form} #{len(ms)}', call,
             lambda: polys('ab', n, ms), goals, mode='py', pyctx=CTX,
             encoded=[getattr(rns.RnsPolynomial, f'__{op}__')],
             bounds=f'every reduced pair; moduli {ms}')


def ntt_round(n, ms, order):
  def call(a):
    par = rns.RnsParams(n, list(ms)).ntt_params
    p = mkp(a, n, ms, order == 'backward')
    fl = [p.is_ntt]
    if order == 'forward':
      p.to_ntt_form(par)
      fl.append(p.is_ntt)
      p.to_ntt_form(par)      # already there: nothing happens
      p.to_coeffs_form(par)
    else:
      p.to_coeffs_form(par)
      fl.append(p.is_ntt)
      p.to_coeffs_form(par)
      p.to_ntt_form(par)
    fl.append(p.is_ntt)
    return p.coeffs, fl

  def goals(ins, outs):
    k = n * len(ms)
    if len(outs) != k + 3:
      return [('count', smt.FALSE)]
    g = [(f'{t}', smt.Eq(outs[t].x[()], v))
         for t, v in enumerate(ins[0].x.ravel())]
    w = int(order == 'backward')
    for o, v in zip(outs[k:], [w, 1 - w, w]):
      g.append((f'form', smt.Eq(o.x[()], v)))
    return g
  return Obl(f'form round trip N={n} {order} first', call,
             lambda: polys('a', n, ms), goals, mode='py', pyctx=CTX,
             encoded=[rns.Ntt.forward, rns.Ntt.backward,
                      rns.RnsPolynomial.to_ntt_form,
                      rns.RnsPolynomial.to_coeffs_form],
             bounds=f'every reduced polynomial; moduli {ms}')


def forward_linear(n, ms):
  """Forward values are reduced and the transform is evaluation at roots."""
  def call(a):
    par = rns.RnsParams(n, list(ms)).ntt_params
    p = mkp(a, n, ms)
    p.to_ntt_form(par)
    return p.coeffs

  def goals(ins, outs):
    a = ins[0].x
    g = []
    for i, m in enumerate(ms):
      used = set()
      for j in range(n):
        v = outs[i * n + j].x[()]
        g.append((f'{i},{j} range', smt.In(v, 0, m - 1)))
        # the evaluation point: coefficient of a_1 in the normal form
        pt = None
        if isinstance(v, T.Sym):
          key = next(iter(T.poly(a[i, 1]))) if isinstance(
              a[i, 1], T.Sym) else None
          pt = v.p.get(key, 0) % m if key is not None else None
        if pt is None:      # concrete replay: search the point
          pts = [x for x in roots(2 * n, m) if (int(v) - sum(
              int(a[i, k]) * pow(x, k, m) for k in range(n))) % m == 0]
          g.append((f'{i},{j} some root', smt.TRUE if pts else smt.FALSE))
          continue
        g.append((f'{i},{j} odd root', smt.TRUE if pow(
            pt, n, m) == m - 1 and pt not in used else smt.FALSE))
        used.add(pt)
        g.append((f'{i},{j} value', smt.Cong(v, T.total(
            [T.mul(a[i, k], pow(pt, k, m)) for k in range(n)]), m)))
    return g

  def roots(o, m):
    g = next(x for x in range(2, m) if pow(pow(x, (m - 1) // o, m), o // 2,
                                           m) == m - 1)
    r = pow(g, (m - 1) // o, m)
    return [pow(r, k, m) for k in range(1, o, 2)]
  return Obl(f'forward evaluates at the odd roots N={n}', call,
             lambda: polys('a', n, ms), goals, mode='py', pyctx=CTX,
             encoded=[rns.Ntt.forward, rns.Ntt.__post_init__],
             bounds=f'every reduced polynomial; moduli {ms}')


def product(n, ms):
  def call(a, b):
    par = rns.RnsParams(n, list(ms)).ntt_params
    p, q = mkp(a, n, ms), mkp(b, n, ms)
    p.to_ntt_form(par)
    q.to_ntt_form(par)
    r = p * q
    fl = r.is_ntt
    r.to_coeffs_form(par)
    return r.coeffs, fl

  def goals(ins, outs):
    a, b = [i.x for i in ins]
    return reduced('product', outs, n, ms,
                   [negacyc(list(a[i]), list(b[i])) for i in range(len(ms))]
                   ) + [('form', smt.Eq(outs[-1].x[()], 1))]
  return Obl(f'product N={n}', call, lambda: polys('ab', n, ms), goals,
             mode='py', pyctx=CTX,
             encoded=[rns.RnsPolynomial.__mul__, rns.Ntt.forward,
                      rns.Ntt.backward],
             bounds=f'every reduced pair; moduli {ms}')


def pointwise(n, ms):
  def call(a, b):
    r = mkp(a, n, ms, True) * mkp(b, n, ms, True)
    return r.coeffs, r.is_ntt

  def goals(ins, outs):
    a, b = [i.x for i in ins]
    return reduced('p', outs, n, ms, [[T.mul(a[i, j], b[i, j]) for j in range(
        n)] for i in range(len(ms))]) + [('form', smt.Eq(outs[-1].x[()], 1))]
  return Obl(f'pointwise product N={n}', call, lambda: polys('ab', n, ms),
             goals, mode='py', pyctx=CTX,
             encoded=[rns.RnsPolynomial.__mul__],
             bounds=f'every reduced pair; moduli {ms}')


BAD = [
    # (degree, moduli, ntt) of both operands, operation, refused?
    ((2, [97, 193], False), (2, [97, 193], False), 'add', False),
    ((2, [97, 193], True), (2, [97, 193], True), 'mul', False),
    ((2, [97, 193], False), (2, [97, 193], False), 'mul', True),
    ((2, [97, 193], True), (2, [97, 193], False), 'mul', True),
    ((2, [97, 193], True), (2, [97, 193], False), 'add', True),
    ((2, [97, 193], False), (2, [97, 193], True), 'sub', True),
    ((2, [97, 193], False), (2, [97, 257], False), 'add', True),
    ((2, [97, 193], False), (2, [193, 97], False), 'sub', True),
    ((2, [97, 193], False), (2, [97], False), 'add', True),
    ((2, [97], False), (2, [97, 193], False), 'sub', True),
    ((2, [97, 193], True), (2, [97], True), 'mul', True),
    ((2, [97], False), (4, [97], False), 'add', True),
    ((4, [97], True), (2, [97], True), 'mul', True),
]


def refused():
  st = {}

  def inputs(c):
    st['c'] = c
    return [P.pvar('a', (2, 4), 0, 96), P.pvar('b', (2, 4), 0, 96)]

  def call(a, b):
    (n1, m1, f1), (n2, m2, f2), op, _ = st['c']
    p = mkp(a[:len(m1), :n1], n1, m1, f1)
    q = mkp(b[:len(m2), :n2], n2, m2, f2)
    return {'add': lambda: p + q, 'sub': lambda: p - q,
            'mul': lambda: p * q}[op]().coeffs
  return Obl('incompatible operands are refused', call, inputs,
             lambda i, o: [('accepted', smt.FALSE if st['c'][3]
                            else smt.TRUE)],
             raises=(ValueError,),
             on_raise=lambda i, e: [('refused', smt.TRUE if st['c'][3]
                                     else smt.FALSE)],
             cases=BAD, mode='py', pyctx=CTX,
             encoded=[rns.RnsPolynomial.__add__, rns.RnsPolynomial.__mul__],
             bounds='any coefficients; listed shapes')


def params_refused():
  st = {}

  def call(x):
    rns.RnsParams(st['c'][0], st['c'][1])
    return x
  return Obl('unsuitable parameters are refused', call,
             lambda c: (st.__setitem__('c', c), [P.pvar('x', (), 0, 1)])[1],
             lambda i, o: [('accepted', smt.FALSE if st['c'][2]
                            else smt.TRUE)],
             raises=(ValueError,),
             on_raise=lambda i, e: [('refused', smt.TRUE if st['c'][2]
                                     else smt.FALSE)],
             cases=[(4, [97, 193], False), (3, [97], True), (4, [101], True),
                    (64, [97], True), (8, [97, 19], True), (6, [97], True)],
             mode='py', pyctx=CTX, encoded=[rns.Ntt.__post_init__],
             bounds='listed parameters')


def generate(n, ms):
  def call(c):
    p = rns.gen_rns_polynomial(n, P.lst(c), list(ms))
    return p.coeffs, p.is_ntt, p.degree, list(p.moduli)

  def goals(ins, outs):
    c = list(ins[0].x)
    g = reduced('c', outs, n, ms, [c for _ in ms])
    for o, v in zip(outs[n * len(ms):], [0, n] + list(ms)):
      g.append(('metadata', smt.Eq(o.x[()], v)))
    return g
  return Obl(f'gen_rns_polynomial N={n}', call,
             lambda: [P.pvar('c', (n,), -2**90, 2**90)], goals, mode='py',
             pyctx=CTX, encoded=[rns.gen_rns_polynomial],
             bounds='coefficients up to 2^90 in absolute value')


def arrays(n, ms, form):
  def call(a):
    p = rns.gen_rns_polynomial_from_jnp_array(
        n, P.jarr(a, np.uint64), list(ms), is_ntt=form)
    return p.coeffs, p.is_ntt, p.to_jnp_array()

  def goals(ins, outs):
    k = n * len(ms)
    if len(outs) != k + 2 or outs[-1].shape != (len(ms), n):
      return [('shape', smt.FALSE)]
    fl = ins[0].x.ravel()
    return ([(f'{t}', smt.Eq(outs[t].x[()], v)) for t, v in enumerate(fl)]
            + [('form', smt.Eq(outs[k].x[()], int(form)))]
            + [(f'array {t}', smt.Eq(outs[-1].x.ravel()[t], v))
               for t, v in enumerate(fl)])
  return Obl(f'array conversion N={n} {form}', call,
             lambda: polys('a', n, ms), goals, mode='py', pyctx=CTX,
             encoded=[rns.gen_rns_polynomial_from_jnp_array,
                      rns.RnsPolynomial.to_jnp_array],
             bounds='every reduced polynomial')


def obligations(tier):
  obs = []
  for n in (2, 4, 8):
    ms = primes(2 * n, 30, 2)
    for op in ('add', 'sub', 'neg'):
      for form in (False, True):
        obs.append(linear(op, n, ms if n < 8 else ms[:1], form))
    obs.append(pointwise(n, ms))
    obs.append(generate(n, ms + [97]))
  obs.append(linear('add', 2, [97, 193, 2**61 - 1], False))
  ns = [2, 4, 8, 16] + ([32, 64] if tier == 'thorough' else [])
  for n in ns:
    ms = primes(2 * n, 30, 2)
    obs += [ntt_round(n, ms, 'forward'), ntt_round(n, ms, 'backward'),
            forward_linear(n, ms)]
  obs.append(forward_linear(8, [97, 113]))
  for n in (2, 4, 8) if tier == 'thorough' else (2, 4):
    obs.append(product(n, primes(2 * n, 30, 2)))
  obs.append(product(8, [97]))
  obs += [refused(), params_refused(), arrays(4, primes(8, 30, 2), False),
          arrays(2, primes(8, 40, 3), True)]
  return obs
