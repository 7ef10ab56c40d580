"""K07: keys, encryption and decryption."""
JOBS = 8
ASSUMPTIONS = [
    'Ring sizes and modulus chains are the listed ones; every draw of the '
    'random source, key, plaintext and ciphertext is covered.',
    'The random source is the injectable one; its draws are symbolic residues '
    '(secrets: 0/1 coefficients, as the library draws them).',
]

import math
import types as pytypes
import numpy as np
from checks.ckks import *
from checks.k03 import primes, evaluate, interpolate
from checks.k06 import negacyc
from checks.k08 import parts_of
from jaxite.jaxite_ckks import (blind_rotate_utils, encode, encrypt, key_gen,
                                ntt_cpu, random as ckks_random, types)
from jv import pysym as P
from jv.harness import patched

CTX = P.PyCtx(lambda: [key_gen, encrypt, ntt_cpu, blind_rotate_utils,
                       ckks_random])
I64 = np.uint64


class Source(ckks_random.RandomSource):
  """Hands out given draws; remembers what was asked for."""

  def __init__(self, uniform=(), gaussian=(), ternary=(), sparse=()):
    self.d = {'u': list(uniform), 'g': list(gaussian), 't': list(ternary),
              's': list(sparse)}
    self.log = []

  def _next(self, kind, degree, moduli):
    a = self.d[kind].pop(0)
    assert a.shape == (degree, len(moduli)), 'draw of unexpected shape'
    return P.arr(a, I64)

  def gen_uniform_poly(self, degree, moduli):
    return self._next('u', degree, moduli)

  def gen_gaussian_poly(self, degree, moduli, sigma=3.19):
    assert sigma == 3.19
    return self._next('g', degree, moduli)

  def gen_ternary_poly(self, degree, moduli):
    return self._next('t', degree, moduli)

  def gen_sparse_binary(self, degree, weight, moduli):
    self.log.append(weight)
    return self._next('s', degree, moduli)


def res(name, shape, ms):
  k = int(np.prod(shape)) // len(ms)
  return P.pvar(name, shape, 0, [m - 1 for m in ms] * k)


def bits(name, n):
  return P.pvar(name, (n,), 0, 1)


def tile(b, k):
  return np.stack([b] * k, axis=1)


def ev(x, ms):
  """(N, L) -> transform of each column."""
  out = np.empty(x.shape, object)
  for i, m in enumerate(ms):
    for t, v in enumerate(evaluate(list(x[:, i]), m)):
      out[t, i] = v
  return out


def eq_mod(label, got, want, ms, canonical=True):
  g = []
  for i in np.ndindex(*want.shape):
    m = int(ms[i[-1]])
    g.append((f'{label}{i} value', smt.Cong(got[i], want[i], m)))
    if canonical:
      g.append((f'{label}{i} range', smt.In(got[i], 0, m - 1)))
  return g


def lin(*terms):
  """Sum of products of arrays, elementwise: each term is a tuple."""
  out = np.zeros(terms[0][0].shape, object)
  for i in np.ndindex(*out.shape):
    acc = []
    for t in terms:
      v = 1
      for f in t:
        v = T.mul(v, f[i] if isinstance(f, np.ndarray) else f)
      acc.append(v)
    out[i] = T.total(acc)
  return out


def is_list(label, got, want):
  g = [(f'{label} count', smt.TRUE if got.shape == (len(want),) else
        smt.FALSE)]
  return g + [(f'{label} {i}', smt.Eq(got[i], w))
              for i, w in enumerate(want) if got.shape == (len(want),)]


def keygen(n, ms, weight, tag):
  def call(s, a, e):
    st = tile(s, len(ms))
    src = Source([a], [e], [st] if weight is None else [],
                 [] if weight is None else [st])
    kw = {} if weight is None else {'hamming_weight': weight}
    pk, sk = key_gen.keygen(n, list(ms), src, **kw)
    if weight is not None:
      assert src.log == [weight]
    return pk.data, sk.data, pk.moduli, sk.moduli

  def goals(ins, outs):
    s, a, e = [i.x for i in ins]
    pk, sk = outs[0].x, outs[1].x
    if pk.shape != (2, n, len(ms)) or sk.shape != (n, len(ms)):
      return [('shape', smt.FALSE)]
    sn, en = ev(tile(s, len(ms)), ms), ev(e, ms)
    g = eq_mod('secret ', sk, sn, ms)
    g += eq_mod('mask ', pk[1], ev(a, ms), ms)
    g += eq_mod('pk identity ', lin((pk[0],), (pk[1], sn)), en, ms, False)
    g += eq_mod('pk ', pk[0], pk[0], ms)
    return (g + is_list('pk moduli', outs[2].x, ms) +
            is_list('sk moduli', outs[3].x, ms))
  return Obl(f'keygen N={n} {tag} weight={weight}', call,
             lambda: [bits('s', n), res('a', (n, len(ms)), ms),
                      res('e', (n, len(ms)), ms)], goals, mode='py',
             pyctx=CTX, nl=True, encoded=[key_gen.keygen],
             bounds=f'every draw; moduli {ms}')


def enc(n, ms, extra, tag, dt=np.uint32):
  allm = list(ms) + list(extra)

  def call(pk, m, v, e0, e1):
    src = Source([], [e0, e1], [v])
    k = types.PublicKey(P.arr(pk, I64), np.array(allm, dtype=I64))
    c = encrypt.Encrypt(k).encrypt(
        types.Plaintext(P.jarr(m, dt), np.array(ms, dtype=dt)), src)
    return c.data, c.moduli

  def goals(ins, outs):
    pk, m, v, e0, e1 = [i.x for i in ins]
    c = outs[0].x
    if c.shape != (2, n, len(ms)):
      return [('shape', smt.FALSE)]
    L = len(ms)
    vn, p = ev(v, ms), pk[:, :, :L]

    def with_(f0, f1):
      return (eq_mod('c0 ', c[0], lin((vn, p[0]), (ev(f0, ms),), (m,)), ms) +
              eq_mod('c1 ', c[1], lin((vn, p[1]), (ev(f1, ms),)), ms))
    g = with_(e0, e1)
    if any(f.op == 'false' or f.op == 'cong' for _, f in g):
      g = [('c0, c1 for some assignment of the two errors', smt.Or(
          smt.And(*[f for _, f in g]),
          smt.And(*[f for _, f in with_(e1, e0)])))]
    return g + is_list('moduli', outs[1].x, ms)
  return Obl(f'encrypt N={n} {tag} {np.dtype(dt)}', call,
             lambda: [res('pk', (2, n, len(allm)), allm),
                      res('m', (n, len(ms)), ms), res('v', (n, len(ms)), ms),
                      res('e', (n, len(ms)), ms), res('f', (n, len(ms)), ms)],
             goals, mode='py', pyctx=CTX, nl=True,
             encoded=[encrypt.Encrypt.encrypt],
             bounds=f'every plaintext, key and draw; moduli {ms}')


def dec(n, ms, extra, tag, dt=np.uint32):
  allm = list(ms) + list(extra)

  def call(sk, c):
    k = types.SecretKey(P.arr(sk, I64), np.array(allm, dtype=I64))
    o = encrypt.Decrypt(k).decrypt(
        types.Ciphertext(P.jarr(c, dt), np.array(ms, dtype=dt)))
    return o.data, o.moduli

  def goals(ins, outs):
    s, c = ins[0].x[:, :len(ms)], ins[1].x
    if outs[0].shape != (n, len(ms)):
      return [('shape', smt.FALSE)]
    w = lin((c[0],), (c[1], s))
    spec = np.empty(w.shape, object)
    for i, m in enumerate(ms):
      for t, v in enumerate(interpolate(list(w[:, i]), m)):
        spec[t, i] = v
    return eq_mod('', outs[0].x, spec, ms) + is_list('moduli', outs[1].x, ms)
  return Obl(f'decrypt N={n} {tag} {np.dtype(dt)}', call,
             lambda: [res('s', (n, len(allm)), allm),
                      res('c', (2, n, len(ms)), ms)], goals, mode='py',
             pyctx=CTX, nl=True, encoded=[encrypt.Decrypt.decrypt],
             bounds=f'every key and ciphertext; moduli {ms}')


def roundtrip(n, ms, tag):
  """decrypt(encrypt(m)) = m + e0 + v*e + s*e1 in the ring."""
  L = len(ms)

  def call(s, a, e, m, v, e0, e1):
    pk, sk = key_gen.keygen(n, list(ms), Source([a], [e], [tile(s, L)]))
    mn = ntt_cpu.ntt_negacyclic_poly(P.arr(m, I64), list(ms))
    c = encrypt.Encrypt(pk).encrypt(
        types.Plaintext(mn, np.array(ms, dtype=I64)),
        Source([], [e0, e1], [v]))
    return encrypt.Decrypt(sk).decrypt(c).data

  def goals(ins, outs):
    s, a, e, m, v, e0, e1 = [i.x for i in ins]
    g = []
    for i, q in enumerate(ms):
      ve = negacyc(list(v[:, i]), list(e[:, i]))
      se = negacyc(list(s), list(e1[:, i]))
      for t in range(n):
        w = T.total([m[t, i], e0[t, i], ve[t], se[t]])
        g.append((f'{t},{i} value', smt.Cong(outs[0].x[t, i], w, q)))
        g.append((f'{t},{i} range', smt.In(outs[0].x[t, i], 0, q - 1)))
    return g
  return Obl(f'decrypt of encrypt N={n} {tag}', call,
             lambda: [bits('s', n)] + [res(k, (n, L), ms) for k in 'aemvfh'],
             goals, mode='py', pyctx=CTX, nl=True,
             encoded=[key_gen.keygen, encrypt.Encrypt.encrypt,
                      encrypt.Decrypt.decrypt],
             bounds=f'every message, key and draw; moduli {ms}')


def extend(n, ms, more, tag):
  alls = list(ms) + list(more)

  def call(s):
    d = ntt_cpu.ntt_negacyclic_poly(P.arr(tile(s, len(ms)), I64), list(ms))
    k = key_gen.extend_secret_key(
        types.SecretKey(d, np.array(ms, dtype=I64)), list(alls))
    return k.data, k.moduli

  def goals(ins, outs):
    if outs[0].shape != (n, len(alls)):
      return [('shape', smt.FALSE)]
    return eq_mod('', outs[0].x, ev(tile(ins[0].x, len(alls)), alls),
                  alls) + is_list('moduli', outs[1].x, alls)
  return Obl(f'extend_secret_key N={n} {tag}', call, lambda: [bits('s', n)],
             goals, mode='py', pyctx=CTX, encoded=[key_gen.extend_secret_key],
             bounds=f'every binary secret; moduli {alls}')


def secret(n, name, ms):
  """A secret key object whose data are the transform of 0/1 coefficients."""
  def make(s):
    d = ntt_cpu.ntt_negacyclic_poly(P.arr(tile(s, len(ms)), I64), list(ms))
    return types.SecretKey(d, np.array(ms, dtype=I64))
  return make


def auto_coef(c, g):
  n = len(c)
  d = [None] * n
  for t in range(n):
    e = t * g % (2 * n)
    d[e % n] = c[t] if e < n else T.sub(0, c[t])
  return d


def ksk_goals(outs, s_dst, src_ntt, es, qs, ps, dnum):
  """b_i + a_i s = e_i + P * (source on part i)."""
  alls = list(qs) + list(ps)
  a, b = outs[0].x, outs[1].x
  n = len(s_dst)
  if a.shape != (dnum, n, len(alls)) or b.shape != a.shape:
    return [('shape', smt.FALSE)]
  p = math.prod(ps)
  sd = ev(tile(s_dst, len(alls)), alls)
  g = []
  alpha = -(-len(qs) // dnum)
  for k in range(dnum):
    en = ev(es[k], alls)
    want = en.copy()
    for j in range(k * alpha, min((k + 1) * alpha, len(qs))):
      for t in range(n):
        want[t, j] = T.add(en[t, j], T.mul(src_ntt[t, j], p % qs[j]))
    g += eq_mod(f'part {k} ', lin((b[k],), (a[k], sd)), want, alls, False)
    g += eq_mod(f'a{k} ', a[k], a[k], alls) + eq_mod(f'b{k} ', b[k], b[k],
                                                     alls)
  return g


def mask_goals(a, draws, alls):
  g = []
  for k, d in enumerate(draws):
    g += eq_mod(f'mask {k} ', a[k], ev(d, alls), alls)
  return g


def ksk(kind, n, qs, ps, dnum, tag):
  alls = list(qs) + list(ps)

  def call(s, w, a, e):
    src = Source(list(a), list(e))
    sk = secret(n, 's', qs)(s)
    if kind == 'switch':
      k = key_gen.gen_key_switching_key(
          types.SecretKey(P.arr(w, I64), np.array(qs, dtype=I64)), sk,
          list(qs), list(ps), dnum, src)
    else:
      f = {'evaluation': key_gen.gen_evaluation_key,
           'conjugate': key_gen.gen_conjugate_key}[kind]
      k = f(sk, list(qs), list(ps), dnum, src)
    return k.a, k.b, k.moduli

  def goals(ins, outs):
    s, w, a, e = [i.x for i in ins]
    sn = ev(tile(s, len(qs)), qs)
    if kind == 'switch':
      src = w
    elif kind == 'evaluation':
      src = lin((sn, sn))
    else:
      src = ev(tile(np.array(auto_coef(list(s), -1), dtype=object), len(qs)),
               qs)
    return (ksk_goals(outs, s, src, e, qs, ps, dnum) +
            mask_goals(outs[0].x, a, alls) +
            is_list('moduli', outs[2].x, alls))
  enc_ = [key_gen.gen_key_switching_key] + {
      'switch': [], 'evaluation': [key_gen.gen_evaluation_key],
      'conjugate': [key_gen.gen_conjugate_key]}[kind]
  return Obl(f'{kind} key N={n} q={len(qs)} p={len(ps)} dnum={dnum} {tag}',
             call, lambda: [bits('s', n), res('w', (n, len(qs)), qs),
                            res('a', (dnum, n, len(alls)), alls),
                            res('e', (dnum, n, len(alls)), alls)], goals,
             mode='py', pyctx=CTX, nl=True, encoded=enc_,
             bounds=f'every secret and draw; q={qs} p={ps}')


def hmux_goals(key, s, beta, j, d, qs, ps):
  """key: [k0 data, k0 moduli, k1 data, k1 moduli]; d: a0,e0,a1,e1."""
  alls = list(qs) + list(ps)
  n = len(s)
  p = math.prod(ps)
  g5 = pow(5, -j, 2 * n)
  if s.ndim == 1:
    sn = ev(tile(s, len(alls)), alls)
    rot = ev(tile(np.array(auto_coef(list(s), g5), dtype=object), len(qs)),
             qs)
  else:
    sn = s
    rot = ev(np.stack([np.array(auto_coef(interpolate(list(s[:, i]), q), g5),
                                dtype=object) for i, q in enumerate(qs)], 1),
             qs)
  k0, k1 = key[0].x, key[2].x
  if k0.shape != (2, n, len(alls)) or k1.shape != k0.shape:
    return [('shape', smt.FALSE)]
  g = is_list('moduli 0', key[1].x, alls) + is_list('moduli 1', key[3].x,
                                                    alls)
  w0, w1 = ev(d[1], alls), ev(d[3], alls)
  for t in range(n):
    for i, m in enumerate(alls):
      w1[t, i] = T.add(w1[t, i], T.mul(beta, p % m))
      if i < len(qs):
        w0[t, i] = T.add(w0[t, i], T.mul(T.mul(beta, p % m), rot[t, i]))
  g += eq_mod('key0 ', lin((k0[0],), (k0[1], sn)), w0, alls, False)
  g += eq_mod('key1 ', lin((k1[0],), (k1[1], sn)), w1, alls, False)
  for nm, k, a in (('key0', k0, d[0]), ('key1', k1, d[2])):
    g += eq_mod(f'{nm} mask ', k[1], ev(a, alls), alls)
    g += eq_mod(f'{nm} body ', k[0], k[0], alls)
  return g


def hmux_slots(n, qs, ps, beta, j, tag):
  """As hmux, with the secret given by its (arbitrary) transform values."""
  alls = list(qs) + list(ps)

  def call(s, d):
    sk = types.SecretKey(P.arr(s[:, :len(qs)], I64), np.array(qs, dtype=I64))
    k = key_gen.gen_hmuxrot_key(
        sk, beta, j, list(qs), list(ps),
        Source([d[0], d[2]], [d[1], d[3]]), types.SecretKey(
            P.arr(s, I64), np.array(alls, dtype=I64)))
    return k.key0.data, k.key0.moduli, k.key1.data, k.key1.moduli
  return Obl(f'hmuxrot key from slots N={n} beta={beta} j={j} {tag}', call,
             lambda: [res('s', (n, len(alls)), alls),
                      res('d', (4, n, len(alls)), alls)],
             lambda i, o: hmux_goals(o, i[0].x, beta, j, i[1].x, qs, ps),
             mode='py', pyctx=CTX, nl=True, encoded=[key_gen.gen_hmuxrot_key],
             bounds=f'every secret and draw; q={qs} p={ps}')


def hmux(n, qs, ps, beta, j, tag, ext=False):
  alls = list(qs) + list(ps)

  def call(s, d):
    src = Source([d[0], d[2]], [d[1], d[3]])
    kw = {'sk_ext': secret(n, 's', alls)(s)} if ext else {}
    k = key_gen.gen_hmuxrot_key(secret(n, 's', qs)(s), beta, j, list(qs),
                                list(ps), src, **kw)
    return k.key0.data, k.key0.moduli, k.key1.data, k.key1.moduli
  return Obl(f'hmuxrot key N={n} q={len(qs)} p={len(ps)} beta={beta} j={j} '
             f'{tag} {ext}', call,
             lambda: [bits('s', n), res('d', (4, n, len(alls)), alls)],
             lambda i, o: hmux_goals(o, i[0].x, beta, j, i[1].x, qs, ps),
             mode='py', pyctx=CTX, nl=True, encoded=[key_gen.gen_hmuxrot_key],
             bounds=f'every secret and draw; q={qs} p={ps}')


def muxkey(n, qs, ps, sec, stride):
  alls = list(qs) + list(ps)
  k = len(sec)

  def call(s, d):
    src = Source([d[2 * i] for i in range(4 * k)],
                 [d[2 * i + 1] for i in range(4 * k)])
    kw = {} if stride is None else {'stride': stride}
    mk = key_gen.gen_mux_rotation_key(secret(n, 's', qs)(s), list(sec),
                                      list(qs), list(ps), random_source=src,
                                      **kw)
    got = [[x.key0.data, x.key0.moduli, x.key1.data, x.key1.moduli]
           for pair in mk.keys for x in pair]
    # one gen_hmuxrot_key (decided above) per bit and branch
    want = []
    for i, b in enumerate(sec):
      for w, (beta, j) in enumerate(((b, 2**i * (stride or 1)), (1 - b, 0))):
        x = 4 * (2 * i + w)
        h = key_gen.gen_hmuxrot_key(
            secret(n, 's', qs)(s), beta, j, list(qs), list(ps),
            Source([d[x], d[x + 2]], [d[x + 1], d[x + 3]]))
        want.append([h.key0.data, h.key0.moduli, h.key1.data, h.key1.moduli])
    return got, want

  def goals(ins, outs):
    if len(outs) != 16 * k:
      return [('count', smt.FALSE)]
    g = []
    for i, (a, b) in enumerate(zip(outs[:8 * k], outs[8 * k:])):
      if a.shape != b.shape:
        return [('shape', smt.FALSE)]
      g += [(f'{i} {t}', smt.Eq(a.x[t], b.x[t]))
            for t in np.ndindex(*a.shape)]
    return g
  return Obl(f'mux rotation key N={n} q={len(qs)} p={len(ps)} bits={sec} '
             f'stride={stride}', call,
             lambda: [bits('s', n), res('d', (8 * k, n, len(alls)), alls)],
             goals, mode='py', pyctx=CTX, nl=True,
             encoded=[key_gen.gen_mux_rotation_key],
             bounds=f'every secret and draw; q={qs} p={ps}')


def cm_keys(n, ms, count, scale):
  """gen_cm_keys: encryptions of the identity matrix."""
  L = len(ms)

  def call(pk, v, e, f):
    draws = {'n': 0}

    def source():
      i = draws['n']
      draws['n'] += 1
      return Source([], [e[i], f[i]], [v[i]])
    with patched([(ckks_random, 'SecureRandomSource', source)]):
      ks = key_gen.gen_cm_keys(list(range(count)), types.PublicKey(
          P.arr(pk, I64), np.array(ms, dtype=I64)), scale)
    return [[ks[i, j].data, ks[i, j].moduli] for i in range(count)
            for j in range(count)]

  def goals(ins, outs):
    pk, v, e, f = [i.x for i in ins]
    g = []
    for k in range(count * count):
      one = scale if k // count == k % count else 0
      c = outs[2 * k].x
      vn = ev(v[k], ms)
      m = np.full((n, L), int(one), object)
      g += eq_mod(f'{k} c0 ', c[0], lin((vn, pk[0]), (ev(e[k], ms),), (m,)),
                  ms)
      g += eq_mod(f'{k} c1 ', c[1], lin((vn, pk[1]), (ev(f[k], ms),)), ms)
      g += is_list(f'{k} moduli', outs[2 * k + 1].x, ms)
    return g
  k = count * count
  return Obl(f'column keys N={n} {count}x{count}', call,
             lambda: [res('p', (2, n, L), ms)] +
             [res(x, (k, n, L), ms) for x in 'vef'], goals, mode='py',
             pyctx=CTX, nl=True, encoded=[key_gen.gen_cm_keys],
             bounds=f'every public key and draw; moduli {ms}')


class Rng:
  """Stand-in for the system generator."""

  def __init__(self, vals):
    self.v = list(vals)

  def normalvariate(self, mu, sigma):
    assert mu == 0
    return self.v.pop(0)

  def choice(self, seq):
    k = self.v.pop(0)
    return seq[k % len(seq)]

  def randrange(self, lo, hi):
    v = self.v.pop(0)
    assert lo == 0
    return v % hi

  def sample(self, pop, k):
    pop = list(pop)
    return pop[-k:]


def draws(kind, n, ms):
  L = len(ms)

  def call(v):
    s = ckks_random.SecureRandomSource()
    s.rng = Rng(v.ravel())
    if kind == 'gaussian':
      return s.gen_gaussian_poly(n, list(ms))
    if kind == 'ternary':
      return s.gen_ternary_poly(n, list(ms))
    return s.gen_uniform_poly(n, list(ms))

  def goals(ins, outs):
    o = outs[0].x
    if o.shape != (n, L):
      return [('shape', smt.FALSE)]
    g = []
    for t in range(n):
      for i, m in enumerate(ms):
        g.append((f'{t},{i} range', smt.In(o[t, i], 0, m - 1)))
        if kind == 'gaussian':
          g.append((f'{t},{i} error', smt.Cong(o[t, i], ins[0].x[t], m)))
        elif kind == 'ternary':
          g.append((f'{t},{i} small', smt.Or(
              smt.Eq(o[t, i], 0), smt.Eq(o[t, i], 1),
              smt.Eq(o[t, i], m - 1))))
          g.append((f'{t},{i} same', smt.Or(
              smt.Eq(o[t, i], o[t, 0]),
              smt.And(smt.Eq(o[t, i], m - 1), smt.Eq(o[t, 0], ms[0] - 1)))))
        else:
          g.append((f'{t},{i} draw', smt.Cong(
              o[t, i], ins[0].x[i, t], m)))
    return g

  def inputs():
    if kind == 'gaussian':
      return [P.pvar('v', (n,), -60, 60)]
    if kind == 'ternary':
      return [P.pvar('v', (n,), 0, 5)]
    return [P.pvar('v', (L, n), 0, [m - 1 for m in ms for _ in range(n)])]
  return Obl(f'{kind} draw N={n} #{L}', call, inputs, goals, mode='py',
             pyctx=CTX, encoded=[getattr(ckks_random.SecureRandomSource,
                                         f'gen_{kind}_poly')],
             bounds=f'every value of the generator; moduli {ms}')


def refused(name, call, encoded, n=2, ms=(97, 193)):
  return Obl(name, call, lambda: [res('x', (2, n, len(ms)), ms)],
             lambda i, o: [('refused', smt.FALSE)], mode='py', pyctx=CTX,
             on_raise=lambda i, e: [('is ValueError', smt.TRUE if isinstance(
                 e, ValueError) else smt.FALSE)],
             encoded=encoded, bounds='every data, one set of moduli')


def obligations(tier):
  p31, p30, p28 = primes(64, 31, 3), primes(64, 30, 8), primes(64, 28, 3)
  q2, s1, s2, s3 = p30[:2], p30[5:6], p30[5:7], p30[4:7]
  mixed = [p31[0], 97, 12289]
  obs = []
  for tag, ms in (('30-bit', q2), ('mixed', mixed), ('one', p31[:1])):
    for n in (2, 4, 8):
      if n < 8 or tier == 'thorough':
        obs.append(keygen(n, ms, None, tag))
      obs.append(enc(n, ms, [], tag))
      obs.append(dec(n, ms, [], tag))
    obs.append(keygen(4, ms, 3, tag))
    obs.append(enc(4, ms[:1], ms[1:] + [193], tag + ' prefix', I64))
    obs.append(dec(4, ms[:1], ms[1:] + [193], tag + ' prefix', I64))
    obs.append(extend(4, ms, s2 + [193], tag))
    obs.append(roundtrip(2, ms, tag))
  obs.append(roundtrip(4, q2[:1], 'one modulus'))
  obs.append(extend(8, q2, [], 'no extension'))
  for kind in ('switch', 'evaluation', 'conjugate'):
    obs += [ksk(kind, 4, q2, s1, 2, '30-bit'), ksk(kind, 2, q2, s2, 1, ''),
            ksk(kind, 2, p30[:3], s2, 2, 'uneven'),
            ksk(kind, 2, p30[:2], s3, 1, 'three special'),
            ksk(kind, 2, p30[:4], s1, 3, 'spare digits'),
            ksk(kind, 4, [97, p31[0]], [12289], 2, 'mixed')]
  for beta in (0, 1):
    obs += [hmux(4, q2, s1, beta, 1, '30-bit'),
            hmux(4, q2, s2, beta, 3, '30-bit', True),
            hmux(2, q2, s3, beta, 1, 'three special'),
            hmux(4, [97, p31[0]], [12289], beta, 0, 'mixed'),
            hmux_slots(8, q2[:1], s1, beta, 2, 'N=8'),
            hmux_slots(8, q2, s1, beta, -1, 'N=8')]
  obs += [muxkey(4, q2[:1], s1, (1,), None), muxkey(4, q2, s1, (0, 1), 1),
          muxkey(8, q2[:1], s1, (1, 0), 3),
          muxkey(8, q2[:1], s1, (0, 1, 1), None)]
  obs.append(cm_keys(4, q2, 2, 1024.0))
  for kind in ('gaussian', 'ternary', 'uniform'):
    obs.append(draws(kind, 3, mixed))
  big = np.array([97, 193], dtype=I64)
  other = np.array([97, 257], dtype=I64)
  obs += [
      refused('encrypt under other moduli', lambda x: encrypt.Encrypt(
          types.PublicKey(P.arr(x, I64), big)).encrypt(types.Plaintext(
              P.jarr(x[0], I64), other), Source()).data,
              [encrypt.Encrypt.encrypt]),
      refused('decrypt under other moduli', lambda x: encrypt.Decrypt(
          types.SecretKey(P.arr(x[0], I64), big)).decrypt(types.Ciphertext(
              P.jarr(x, I64), other)).data, [encrypt.Decrypt.decrypt]),
      refused('extend a key to other moduli',
              lambda x: key_gen.extend_secret_key(types.SecretKey(
                  P.arr(x[0], I64), big), [97, 257, 193]).data,
              [key_gen.extend_secret_key]),
  ]
  if tier == 'thorough':
    obs += [hmux(8, q2[:1], s1, 1, 2, 'N=8'), enc(16, q2, [193], 'N=16'),
            dec(16, q2, [193], 'N=16'), roundtrip(8, [97], 'N=8'),
            ksk('evaluation', 8, p30[:4], s3, 2, 'N=8'),
            muxkey(8, q2, s2, (1, 0, 1), 1), cm_keys(8, q2, 3, 2.0**20)]
  return obs
