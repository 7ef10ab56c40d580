"""C10: Boolean gates."""
JOBS = 8
ASSUMPTIONS = [
    'The bootstrap a gate calls is replaced by its contract (decided in C09): '
    'it returns an encryption, under the client key and with noise of its '
    'own, of the value the test polynomial holds at the rounded phase.',
]

import contextlib
import itertools
import os

os.environ["XLA_FLAGS"] = ("--xla_force_host_platform_device_count=4 " +
                           os.environ.get("XLA_FLAGS", ""))
import jax
import jax.numpy as jnp
import numpy as np
from checks import common
common.cggi()
from jaxite.jaxite_bool import bool_encoding, bool_params, jaxite_bool
from jaxite.jaxite_bool import lut as bool_lut
from jaxite.jaxite_cggi import bootstrap, encoding, lwe
from jaxite.jaxite_cggi import parameters, rlwe
from jaxite.jaxite_cggi import types as ctypes
from checks.c06 import dpar
from checks.c07 import lkey, bits
from jv import jaxsym as J
from jv import smt, terms as T
from jv.harness import Arr, Obl, SymInt, const, obj, patched, varr

U = 'uint32'
PATCH = [(encoding, 'int', SymInt), (ctypes, 'LweCleartext', SymInt)]
UNIT = 1 << 28          # one message step of the Boolean encoding


class Sks:
  """Stand-in for server keys: the gates only hand them on."""

  def __init__(self):
    self.bsk = bootstrap.BootstrappingKey(
        encrypted_lwe_sk_bits=jnp.arange(3, dtype=jnp.uint32))
    self.ksk = _ksk()
    self.bootstrap_callback = None


def _ksk():
  from jaxite.jaxite_cggi import key_switch
  return key_switch.LweKeySwitchingKey(
      modulus=jnp.uint32(0), lwe_dimension=2, decomposition_log_base=4,
      decomposition_level_count=5, lwe_size=3,
      key_data=jnp.arange(4, dtype=jnp.uint32))


class Client:

  def __init__(self, d, s):
    self.lwe_sk = lkey(d, s)


def make_params(d, n, k=1):
  sp = parameters.SchemeParameters(
      lwe_dimension=d, plaintext_modulus=2**32, rlwe_dimension=k,
      polynomial_modulus_degree=n)
  return bool_params.Parameters(sp, dpar(5, 4), dpar(6, 3))


class Boot:
  """The contract of bootstrapping; consumes (mask, noise) per call."""

  def __init__(self, par, sks, s, fresh):
    self.par, self.sks, self.s = par, sks, s
    self.fresh = list(fresh)
    self.n = par.scheme_params.polynomial_modulus_degree

  def _need(self, ok, what):
    if not ok:
      raise ValueError('gate called bootstrapping with the wrong ' + what)

  def _eval(self, ct, tp):
    n = self.n
    d = self.s.shape[0]
    ph = ct[-1] - jnp.sum(ct[:d] * self.s, dtype=jnp.uint32)
    lg = 32 - (2 * n).bit_length() + 1
    idx = ((ph >> (lg - 1)) + 1) >> 1
    idx = idx & jnp.uint32(2 * n - 1)
    p = tp[-1]
    val = jnp.concatenate([p, jnp.uint32(0) - p])[idx]
    mask, noise = self.fresh.pop(0)
    b = jnp.sum(mask * self.s, dtype=jnp.uint32) + val + noise
    return jnp.concatenate([mask, b[None]])

  def params_ok(self, ksp, bsp, sp):
    self._need(ksp is self.par.ks_decomp_params, 'key switch parameters')
    self._need(bsp is self.par.bs_decomp_params, 'bootstrap parameters')
    self._need(sp is self.par.scheme_params, 'scheme parameters')

  def bootstrap(self, ciphertext, test_poly_ciphertext, bsk, ksk,
                ks_decomposition_params, bs_decomposition_params,
                scheme_params, callback=None, **kw):
    self._need(bsk is self.sks.bsk, 'bootstrapping key')
    self._need(ksk is self.sks.ksk, 'key switching key')
    self.params_ok(ks_decomposition_params, bs_decomposition_params,
                   scheme_params)
    return self._eval(ciphertext, test_poly_ciphertext.message)

  def jit_bootstrap(self, ciphertext, test_poly_ciphertext,
                    bsk, ksk, ks_decomposition_params,
                    bs_decomposition_params, scheme_params, *a, **kw):
    self._need(bsk is self.sks.bsk.encrypted_lwe_sk_bits, 'bootstrapping key')
    self._need(ksk is self.sks.ksk.key_data, 'key switching key')
    self.params_ok(ks_decomposition_params, bs_decomposition_params,
                   scheme_params)
    return self._eval(ciphertext, test_poly_ciphertext)


@contextlib.contextmanager
def booted(b):
  with patched([(bootstrap, 'bootstrap', b.bootstrap),
                (bootstrap, 'jit_bootstrap', b.jit_bootstrap)]):
    with jax.ensure_compile_time_eval():
      yield


GATES = {
    'and_': lambda x, y: x & y,
    'andny_': lambda x, y: (1 - x) & y,
    'andyn_': lambda x, y: x & (1 - y),
    'or_': lambda x, y: x | y,
    'orny_': lambda x, y: (1 - x) | y,
    'oryn_': lambda x, y: x | (1 - y),
    'nand_': lambda x, y: 1 - (x & y),
    'nor_': lambda x, y: 1 - (x | y),
    'xor_': lambda x, y: x ^ y,
    'xnor_': lambda x, y: 1 - (x ^ y),
}

# noise that keeps a weighted sum of `w` inside its message cell on N = n
HALF = UNIT // 2
KEY = [1, 0, 1, 1]


def noise_for(weights, n):
  cell = HALF - (1 << (32 - (2 * n).bit_length()))
  return (cell - 1) // sum(weights)


def cipher(name, d, m, e_hi, s):
  """Symbolic encryption of the concrete bit m under s with noise <= e_hi."""
  a = [T.var(f'{name}a{i}', 0, (1 << 32) - 1) for i in range(d)]
  e = T.var(f'{name}e', -e_hi, e_hi)
  b = common.radd(common.raw_dot(a, s), J.wrap(T.add(e, m * UNIT), U))
  return Arr(obj((d + 1,), a + [b]), U)


def fresh(i, d, e_hi):
  return [varr(f'r{i}m', (d,), U), Arr(obj((), [J.wrap(
      T.var(f'r{i}e', -e_hi, e_hi), U)]), U)]


def warm(par, case):
  """Earlier uses of the same parameters: other gates, smaller tables."""
  for name in ('and', 'cmux', 'xor'):
    par.lut_poly_by_name(name)
  if len(case) > 1 and isinstance(case[1], int):
    for n in (1, 2, 3):
      par.lut_poly(num_inputs=n, truth_table=case[1])
    par.lut(num_inputs=2, truth_table=case[1])


def gate_obl(name, nin, run, want, cases, n=32, d=2, nboot=1, weights=(2, 1),
             tier='quick', k=1, encoded=(), boot_noise=None, multi=0,
             fixed=False):
  """run(params, sks, cts, case) -> ciphertext; want(bits, case) -> bit."""
  st = {}
  par = make_params(d, n, k)
  sks = Sks()
  nin_e = noise_for(weights, n)
  out_e = HALF - 1 if boot_noise is None else boot_noise

  def inputs(case):
    st['c'] = case
    s = KEY[:d] if fixed else [T.var(f's{i}', 0, 1) for i in range(d)]
    sa = Arr(obj((d,), s), U)
    ins = [sa]
    for i, m in enumerate(case[0]):
      ins.append(cipher(f'c{i}', d, m, nin_e, s))
    for i in range(0 if fixed else nboot):
      ins += fresh(i, d, out_e)
    return ins

  def call(s, *rest):
    cts = rest[:nin]
    fr = rest[nin:]
    if fixed:
      # a mapped body may not close over symbolic values
      s = np.array(KEY[:d], np.uint32)
      fr = [np.arange(7, 7 + d, dtype=np.uint32), np.uint32(12345)]
    b = Boot(par, sks, s, [(fr[2 * i], fr[2 * i + 1]) for i in range(nboot)])
    with booted(b):
      warm(par, st['c'])
      out = run(par, sks, cts, st['c'])
      client = Client(d, s)
      outs = out if multi else [out]
      return tuple(jnp.asarray(jaxite_bool.decrypt(o, client)) for o in outs)

  def goals(ins, outs):
    w = want(st['c'][0], st['c'])
    w = w if multi else [w]
    if len(outs) != len(w):
      return [('number of results', smt.FALSE)]
    return [(f'{name} {st["c"]}', smt.Eq(o.x.item(), int(v)))
            for o, v in zip(outs, w)]
  return Obl(name, call, inputs, goals, cases=cases, samples=1,
             patches=PATCH, encoded=list(encoded) + [jaxite_bool.decrypt],
             bounds=f'every input bit; ciphertext masks, binary key '
             f'(dimension {d}); input noise up to {nin_e}, output noise up to '
             f'{out_e}; ring degree {n}; {len(cases)} cases', tier=tier)


def bits_of(k):
  return list(itertools.product((0, 1), repeat=k))


def two(name, n=32, d=2, k=1, tier='quick', tag=''):
  f = getattr(jaxite_bool, name)
  return gate_obl(f'{name} gate{tag}', 2,
                  lambda p, s, c, _: f(c[0], c[1], s, p),
                  lambda b, _: GATES[name](*b), [(b,) for b in bits_of(2)],
                  n=n, d=d, k=k, encoded=[f, bool_lut.from_callable], tier=tier)


def lut2_all(n=32):
  return gate_obl('lut2, all tables', 2,
                  lambda p, s, c, case: jaxite_bool.lut2(
                      c[0], c[1], case[1], s, p),
                  lambda b, case: (case[1] >> (b[0] + 2 * b[1])) & 1,
                  [(b, t) for t in range(16) for b in bits_of(2)], n=n,
                  encoded=[jaxite_bool.lut2])


def lut3_part(i, tables, n=32, tier='quick'):
  return gate_obl(f'lut3, tables #{i}', 3,
                  lambda p, s, c, case: jaxite_bool.lut3(
                      c[0], c[1], c[2], case[1], s, p),
                  lambda b, case: (case[1] >> (b[0] + 2 * b[1] + 4 * b[2])) & 1,
                  [(b, t) for t in tables for b in bits_of(3)], n=n, d=1,
                  weights=(4, 2, 1), encoded=[jaxite_bool.lut3], tier=tier)


def lut1_all():
  def run(p, s, c, case):
    return jaxite_bool.lut1(c[0], case[1], s, p)
  return gate_obl('lut1, all tables', 1, run,
                  lambda b, case: (case[1] >> b[0]) & 1,
                  [(b, t) for t in range(4) for b in bits_of(1)], nboot=0,
                  weights=(1,), encoded=[jaxite_bool.lut1,
                                         jaxite_bool.not_,
                                         jaxite_bool.constant])


def not_gate():
  return gate_obl('not_', 1, lambda p, s, c, _: jaxite_bool.not_(c[0], p),
                  lambda b, _: 1 - b[0], [(b,) for b in bits_of(1)], nboot=0,
                  weights=(1,), encoded=[jaxite_bool.not_])


def constant():
  return gate_obl('constant', 0,
                  lambda p, s, c, case: jaxite_bool.constant(case[1], p),
                  lambda b, case: case[1], [((), False), ((), True)], nboot=0,
                  weights=(1,), d=4, encoded=[jaxite_bool.constant])


def cmux():
  # v1 if ctrl else v0
  return gate_obl('cmux_', 3, lambda p, s, c, _: jaxite_bool.cmux_(
      c[0], c[1], c[2], s, p), lambda b, _: b[0] if b[2] else b[1],
                  [(b,) for b in bits_of(3)], weights=(4, 2, 1),
                  encoded=[jaxite_bool.cmux_])


def pmaps():
  def run3(p, s, c, case):
    t = case[1]
    outs = jaxite_bool.pmap_lut3([(c[0], c[1], c[2], t[0]),
                                  (c[1], c[2], c[0], t[1]),
                                  (c[2], c[0], c[1], t[2])], s, p)
    return [outs[i] for i in range(3)]

  def want3(b, case):
    x, y, z = b
    return [(t >> i) & 1 for t, i in zip(
        case[1], (x + 2 * y + 4 * z, y + 2 * z + 4 * x, z + 2 * x + 4 * y))]

  def run2(p, s, c, case):
    t = case[1]
    outs = jaxite_bool.pmap_lut2([(c[0], c[1], t[0]), (c[1], c[0], t[1])],
                                 s, p)
    return [outs[i] for i in range(2)]

  def want2(b, case):
    x, y = b
    return [(case[1][0] >> (x + 2 * y)) & 1, (case[1][1] >> (y + 2 * x)) & 1]
  return [
      gate_obl('pmap_lut3', 3, run3, want3,
               [(b, t) for b in bits_of(3)
                for t in ((221, 3, 142), (150, 100, 27))],
               weights=(4, 2, 1), multi=3, nboot=1, fixed=True,
               encoded=['jaxite/jaxite_bool/jaxite_bool.py pmap_lut3']),
      gate_obl('pmap_lut2', 2, run2, want2,
               [(b, t) for b in bits_of(2)
                for t in ((8, 6), (13, 2), (7, 9))],
               multi=2, nboot=1, fixed=True,
               encoded=['jaxite/jaxite_bool/jaxite_bool.py pmap_lut2'])]


def circuit():
  """Chained gates: outputs of gates are valid inputs of gates."""
  b3 = noise_for((4, 2, 1), 32)

  def run(p, s, c, _):
    x = jaxite_bool.xor_(c[0], c[1], s, p)
    t = jaxite_bool.and_(jaxite_bool.not_(x, p), c[2], s, p)
    return jaxite_bool.cmux_(t, x, c[0], s, p)

  def want(b, _):
    x = b[0] ^ b[1]
    t = (1 - x) & b[2]
    return t if b[0] else x
  return gate_obl('circuit of gates', 3, run, want,
                  [(b,) for b in bits_of(3)], d=1, nboot=3, weights=(4, 2, 1),
                  boot_noise=b3, encoded=[jaxite_bool.xor_, jaxite_bool.and_,
                                          jaxite_bool.cmux_])


def encrypt_decrypt(d):
  """decrypt(encrypt(b)) == b for every key, mask and noise in the cell."""
  st = {}
  reqs = lambda: common.prg_requests(
      ('c10', d), lambda p: jaxite_bool.encrypt(
          True, Client(d, jnp.zeros(d, jnp.uint32)), p))

  def inputs(case):
    st['c'] = case
    return [varr('s', (d,), U, 0, 1)] + common.prg_inputs(reqs(), HALF - 1)

  def call(s, *rnd):
    cl = Client(d, s)
    ct = jaxite_bool.encrypt(st['c'], cl, common.Prg(rnd))
    return jaxite_bool.decrypt(ct, cl), ct

  def goals(ins, outs):
    g = [('bit', smt.Eq(outs[0].x.item(), int(st['c'])))]
    noise = 0
    for a, r in zip(ins[1:], reqs()):
      if r[0] == 'normal':
        for v in a.r.ravel():
          noise = common.radd(noise, v)
    # the randomness handed in really ends up in the ciphertext
    g.append(('phase', smt.Cong(common.raw_phase(outs[1].r, ins[0].r),
                                common.radd(noise, int(st['c']) * UNIT),
                                1 << 32)))
    return g
  return Obl(f'encrypt/decrypt dimension {d}', call, inputs, goals,
             cases=[False, True], patches=PATCH,
             encoded=[jaxite_bool.encrypt, jaxite_bool.decrypt],
             bounds='every key, mask, noise inside the cell')


def keysets(d, n, k, tier='quick'):
  """Server keys encrypt the client's keys under each other."""
  B = 1 << 12
  L, lb, kL, klb = 2, 8, 2, 4
  sp = parameters.SchemeParameters(
      lwe_dimension=d, plaintext_modulus=2**32, rlwe_dimension=k,
      polynomial_modulus_degree=n)
  par = bool_params.Parameters(sp, dpar(kL, klb), dpar(L, lb))

  def run(p1, p2):
    ck = jaxite_bool.ClientKeySet(par, p1, p2)
    return ck, jaxite_bool.ServerKeySet(ck, par, p1, p2)

  def reqs(i):
    def go(p):
      q = common.Prg()
      run(p, q) if i == 0 else run(q, p)
    return common.prg_requests(('c10k', d, n, k, i), go)

  def inputs():
    r0, r1 = reqs(0), reqs(1)
    a = common.prg_inputs(r0, B)
    T.CTX.prefix = 'x'
    b = []
    for i, (kind, shape, dt) in enumerate(r1):
      m = int(np.prod(shape, dtype=np.int64))
      if kind == 'uniform':
        b.append(varr(f'xu{i}_', shape, dt))
      elif kind == 'sk':
        b.append(varr(f'xs{i}_', shape, dt, 0, 1))
      else:
        b.append(Arr(obj(shape, [J.wrap(T.var(f'xe{i}_{j}', -B, B), dt)
                                 for j in range(m)]), dt))
    return a + b

  def call(*rnd):
    m = len(reqs(0))
    ck, sk = run(common.Prg(rnd[:m]), common.Prg(rnd[m:]))
    return (ck.lwe_sk.key_data,
            rlwe.flatten_key(ck.rlwe_sk).key_data,
            sk.bsk.encrypted_lwe_sk_bits, sk.ksk.key_data)

  def goals(ins, outs):
    z, s, bk, kk = outs
    if z.shape != (d,) or s.shape != (k * n,) or kk.shape != (
        k * n, kL, d + 1):
      return [('shape', smt.FALSE)]
    g = []
    sr = s.r.reshape(k, n)
    for i in range(k * n):
      for l in range(kL):
        g.append((f'ksk {i},{l}', common.near(
            common.raw_phase(kk.r[i][l], z.r),
            common.rmul(s.r[i], 1 << (32 - klb * (l + 1))), B)))
    want = bits(list(z.x), True)
    if bk.shape != (len(want), L * (k + 1), k + 1, n):
      want = bits(list(z.x), False)
    if bk.shape != (len(want), L * (k + 1), k + 1, n):
      return [('bsk shape', smt.FALSE)]
    for j, m in enumerate(want):
      for row in range(L * (k + 1)):
        blk, lev = row // L, row % L + 1
        ph = common.raw_rlwe_phase(bk.r[j][row], sr)
        sc = 1 << (32 - lb * lev)
        for i in range(n):
          if blk == k:
            w = J.wrap(T.mul(m, sc), U) if i == 0 else 0
          else:
            w = J.wrap(T.mul(T.mul(m, sr[blk][i]), -sc), U)
          g.append((f'bsk {j} row{row} {i}', common.near(ph[i], w, B)))
    return g
  return Obl(f'key sets n={d} k={k} N={n}', call, inputs, goals,
             encoded=[jaxite_bool.ClientKeySet.__init__,
                      jaxite_bool.ServerKeySet.__init__],
             bounds='every key bit, mask and noise the generators may return',
             tier=tier)


def obligations(tier):
  obs = [two(g) for g in GATES]
  obs += [two('xor_', n=512, d=4, tag=' N=512'),
          two('nand_', n=512, d=4, k=2, tag=' N=512 k=2'),
          two('oryn_', n=16, d=4, tag=' N=16')]
  obs += [lut1_all(), lut2_all(), not_gate(), constant(), cmux(), circuit()]
  obs += [lut3_part(i, range(i, 256, 16)) for i in range(16)]
  obs += pmaps()
  obs += [encrypt_decrypt(1), encrypt_decrypt(4), keysets(2, 2, 1),
          keysets(2, 2, 2)]
  obs += [lut3_part(100 + i, range(i, 256, 16), n=512, tier='thorough')
          for i in range(16)]
  obs += [two(g, n=512, d=8, k=2, tag=' N=512 n=8', tier='thorough')
          for g in GATES]
  return obs
