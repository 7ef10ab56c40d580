"""C07: blind rotation and bootstrapping-key generation."""
JOBS = 8
ASSUMPTIONS = [
    'Blind rotation is decided with noise-free keys and all digits kept, so '
    'the expected rotation is exact; noise growth is bounded in C06.',
    'The masked exponents are split into all residue cases modulo 2N.',
]

import itertools
import jax
import jax.numpy as jnp
import numpy as np
from checks import common
common.cggi()
from jaxite.jaxite_cggi import bootstrap, decomposition, lwe, rgsw, rlwe
from checks.c03 import rkey
from checks.c06 import dpar, rct
from jv import jaxsym as J
from jv import smt, terms as T
from jv.harness import Arr, Obl, const, obj, varr

U = 'uint32'


def lkey(n, data, logq=32):
  return lwe.LweSecretKey(log_modulus=logq, lwe_dimension=n, key_data=data)


def bsk_reqs(d, k, n, L, lb, bmmp, bat):
  return common.prg_requests(
      ('bsk', d, k, n, L, lb, bmmp, bat),
      lambda p: bootstrap.gen_bootstrapping_key(
          lkey(d, jnp.zeros(d, jnp.uint32)),
          rgsw.RgswSecretKey(rkey(k, n, jnp.zeros((k, n), jnp.uint32))),
          dpar(L, lb), p, bmmp, bat))


def gen(d, k, n, L, lb, bmmp, bat, z, s, rnd):
  return bootstrap.gen_bootstrapping_key(
      lkey(d, z), rgsw.RgswSecretKey(rkey(k, n, s)), dpar(L, lb),
      common.Prg(rnd), bmmp, bat)


def bits(z, bmmp):
  """The plaintext bits a bootstrapping key encrypts, as terms."""
  if not bmmp:
    return list(z)
  out = []
  for i in range(0, len(z), 2):
    a, b = z[i], z[i + 1]
    ab = T.mul(a, b)
    out += [ab, T.sub(a, ab), T.sub(b, ab)]
  return out


def bsk(d, k, n, L, lb, bmmp, tier='quick'):
  """Each entry of the key is an RGSW encryption of the right bit."""
  B = 1 << 16

  def inputs():
    return [varr('z', (d,), U, 0, 1), varr('s', (k, n), U, 0, 1)
            ] + common.prg_inputs(bsk_reqs(d, k, n, L, lb, bmmp, False), B)

  def call(z, s, *rnd):
    key = gen(d, k, n, L, lb, bmmp, False, z, s, rnd)
    return key.encrypted_lwe_sk_bits, jnp.array(
        [key.use_bmmp, key.use_bat], jnp.uint32)

  def goals(ins, outs):
    ct = outs[0]
    want = bits(list(ins[0].x), bmmp)
    if ct.shape != (len(want), L * (k + 1), k + 1, n):
      return [('shape', smt.FALSE)]
    g = [('flags', smt.And(smt.Eq(outs[1].x[0], int(bmmp)),
                           smt.Eq(outs[1].x[1], 0)))]
    for j, m in enumerate(want):
      for row in range(L * (k + 1)):
        blk, lev = row // L, row % L + 1
        ph = common.raw_rlwe_phase(ct.r[j][row], ins[1].r)
        sc = (1 << (32 - lb * lev)) % (1 << 32)
        for i in range(n):
          if blk == k:
            w = J.wrap(T.mul(m, sc), U) if i == 0 else 0
          else:
            w = J.wrap(T.mul(T.mul(m, ins[1].r[blk][i]), -sc), U)
          g.append((f'bit{j} row{row} coeff{i}', common.near(ph[i], w, B)))
    return g
  return Obl(f'bootstrapping key n={d} k={k} N={n} L={L} logB={lb} '
             f'bmmp={bmmp}', call, inputs, goals,
             encoded=[bootstrap.gen_bootstrapping_key],
             bounds='every LWE key, ring key, mask; every noise up to 2^16',
             tier=tier)


def odd_dim():
  def inputs(case):
    odd_dim.c = case
    return [varr('z', (case[0],), U, 0, 1)]

  def call(z):
    d, bmmp = odd_dim.c
    s = jnp.zeros((1, 2), jnp.uint32)
    gen(d, 1, 2, 2, 8, bmmp, False, z, s, None)
    return z

  def goals(ins, outs):
    return [('accepted', smt.TRUE if odd_dim.c[0] % 2 == 0 else smt.FALSE)]

  def on_raise(ins, exc):
    return [('rejected', smt.TRUE if odd_dim.c[0] % 2 else smt.FALSE)]
  return Obl('bootstrapping key dimension check', call, inputs, goals,
             cases=[(d, b) for d in (1, 2, 3, 4) for b in (True, False)],
             raises=(ValueError,), on_raise=on_raise,
             encoded=[bootstrap.gen_bootstrapping_key],
             bounds='dimensions 1..4')


def ideal_bsk(k, n, L, lb, bmmp, z):
  """Noise-free, mask-free key: the gadget scaled by each bit."""
  if bmmp:
    a, b = z[::2], z[1::2]
    z = jnp.stack([a * b, a * (1 - b), (1 - a) * b], axis=1).reshape(-1)
  g = np.zeros((L * (k + 1), k + 1, n), np.uint32)
  for row in range(L * (k + 1)):
    g[row, row // L, 0] = 1 << (32 - lb * (row % L + 1))
  return bootstrap.BootstrappingKey(
      encrypted_lwe_sk_bits=z[:, None, None, None] * jnp.asarray(g)[None],
      use_bmmp=bmmp, use_bat=False)


def rotate(d, k, n, L, lb, bmmp, mode, cases, tier='quick', tag='',
           bat=False):
  """phase(out) = X^{-(b - <a, z>)} * phase(in)."""
  st = {}

  def inputs(case):
    st['c'] = case
    ins = []
    # coefficient_index entries: the residue, any representative mod 2N is
    # produced by the modulus switch as the residue itself
    if mode == 'keys':  # symbolic ring key and masks, noise-free
      ins = [varr('s', (k, n), U, 0, 1)]
      for i, (kind, shape, dt) in enumerate(
          bsk_reqs(d, k, n, L, lb, bmmp, bat)):
        if kind != 'normal':
          ins.append(varr(f'u{i}_', shape, dt))
    z = varr('z', (d,), U, 0, 1)
    if mode == 'long':  # concrete LWE key, symbolic polynomial
      case, zz = case
      st['c'] = case
      z = const(np.array(zz, np.uint32))
    return [const(np.array(case, np.uint32)), z,
            varr('c', (k + 1, n), U)] + ins

  def call(idx, z, c, *rest):
    if mode == 'keys':
      s, rnd = rest[0], list(rest[1:])
      full = [jnp.zeros(sh, dt) if kind == 'normal' else rnd.pop(0)
              for kind, sh, dt in bsk_reqs(d, k, n, L, lb, bmmp, bat)]
      key = gen(d, k, n, L, lb, bmmp, bat, z, s, full)
    elif mode == 'gen':
      key = gen(d, k, n, L, lb, bmmp, bat, z,
                jnp.zeros((k, n), jnp.uint32), None)
    else:
      key = ideal_bsk(k, n, L, lb, bmmp, z)
    return bootstrap.blind_rotate(rct(n, c), idx, key, dpar(L, lb)).message

  def goals(ins, outs):
    z = list(ins[1].x)
    s = ins[3].r if mode == 'keys' else np.zeros((k, n), object)
    if outs[0].shape != (k + 1, n):
      return [('shape', smt.FALSE)]
    *a, b = [int(v) for v in st['c']]
    g = []
    # one-hot over the key bits
    rows_in = ([common.raw_rlwe_phase(ins[2].r, s)] if mode == 'keys' else
               [list(r) for r in ins[2].r])
    rows_out = ([common.raw_rlwe_phase(outs[0].r, s)] if mode == 'keys' else
                [list(r) for r in outs[0].r])
    for r, (pi, po) in enumerate(zip(rows_in, rows_out)):
      want = [0] * n
      zs = (itertools.product((0, 1), repeat=d) if mode != 'long' else
            [tuple(int(v) for v in z)])
      for zb in zs:
        e = -b + sum(x * y for x, y in zip(a, zb))
        w = 1
        for t, v in zip(zb, z):
          w = T.mul(w, v if t else T.sub(1, v))
        rot = raw_mono(pi, e)
        for i in range(n):
          want[i] = common.radd(want[i], common.rmul(w, rot[i]))
      g += [(f'row{r} coeff{i}', smt.Cong(po[i], want[i], 1 << 32))
            for i in range(n)]
    return g
  return Obl(f'blind rotate {tag}n={d} k={k} N={n} L={L} logB={lb} '
             f'bmmp={bmmp} bat={bat} {mode}', call, inputs, goals,
             cases=cases, share=True, samples=1,
             encoded=[bootstrap.blind_rotate, bootstrap.jit_blind_rotate],
             bounds=f'{len(cases)} exponent vectors; every LWE key, every '
             'polynomial' + (', ring key and mask' if mode == 'keys' else ''),
             tier=tier)


def raw_mono(a, d):
  n = len(a)
  d %= 2 * n
  out = [None] * n
  for i in range(n):
    q = i + d
    out[q % n] = common.rsub(0, a[i]) if (q // n) % 2 else a[i]
  return out


def vecs(d, n, count=None, seed=0):
  allv = itertools.product(range(2 * n), repeat=d + 1)
  if count is None:
    return list(allv)
  rng = np.random.default_rng(seed)
  return [tuple(int(v) for v in rng.integers(0, 2 * n, d + 1))
          for _ in range(count)]


def split(cs, k):
  return [cs[i::k] for i in range(k)]


def obligations(tier):
  obs = [bsk(2, 1, 2, 2, 8, True), bsk(4, 1, 2, 2, 8, True),
         bsk(2, 2, 2, 2, 4, False), bsk(4, 1, 4, 1, 8, False),
         bsk(16, 1, 2, 1, 8, True), odd_dim()]
  for i, cs in enumerate(split(vecs(2, 2), 2)):
    obs.append(rotate(2, 1, 2, 2, 16, True, 'ideal', cs, tag=f'#{i} '))
    obs.append(rotate(2, 1, 2, 2, 16, False, 'ideal', cs, tag=f'#{i} '))
  for i, cs in enumerate(split(vecs(2, 4, 64), 4)):
    obs.append(rotate(2, 1, 4, 4, 8, True, 'ideal', cs, tag=f'N4 #{i} '))
    obs.append(rotate(2, 1, 4, 4, 8, False, 'ideal', cs, tag=f'N4 #{i} '))
  obs.append(rotate(2, 2, 2, 2, 16, True, 'keys', [(1, 2, 3), (3, 3, 0)]))
  obs.append(rotate(2, 1, 2, 2, 16, False, 'keys', [(1, 2, 3), (3, 0, 2)]))
  obs.append(rotate(4, 1, 2, 2, 16, True, 'ideal', vecs(4, 2, 12, 3)))
  obs.append(rotate(4, 1, 2, 2, 16, False, 'ideal', vecs(4, 2, 4, 4)))
  rng = np.random.default_rng(7)
  for d, bm in ((16, True), (16, False), (10, True), (6, False)):
    cs = [(v, tuple(int(x) for x in rng.integers(0, 2, d)))
          for v in vecs(d, 2, 3, d)]
    obs.append(rotate(d, 1, 2, 2, 16, bm, 'long', cs))
  obs.append(rotate(2, 1, 2, 2, 16, False, 'gen', [(1, 2, 3)], bat=True))
  for i, cs in enumerate(split(vecs(2, 4), 16)):
    for bm in (True, False):
      obs.append(rotate(2, 1, 4, 4, 8, bm, 'ideal', cs, 'thorough',
                        tag=f'all N4 #{i} '))
  obs.append(bsk(6, 2, 4, 3, 4, True, 'thorough'))
  obs.append(rotate(2, 3, 2, 2, 16, True, 'keys', vecs(2, 2, 6, 9),
                    'thorough'))
  obs.append(rotate(4, 1, 2, 4, 8, True, 'keys', vecs(4, 2, 2, 9),
                    'thorough'))
  return obs
