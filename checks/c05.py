"""C05: negacyclic polynomial arithmetic mod 2^32 (and mod 2^k)."""
JOBS = 8
ASSUMPTIONS = [
    'JAX primitives compute what their jaxpr rule in jv/jaxsym.py says; each '
    'encoding is compared with the real function on concrete inputs per run.',
    'TPU-only Pallas kernels are not executed on CPU and are out of scope.',
]

import jax
import jax.numpy as jnp
import numpy as np
from checks import common
common.cggi()
from jaxite.jaxite_cggi import jax_helpers as jh
from jaxite.jaxite_cggi import matrix_utils as mu
from jaxite.jaxite_cggi import polymul_kernel as pk
from jv import jaxsym as J
from jv import smt, terms as T
from jv.harness import Obl, varr, const

Q = 1 << 32


def congs(out, spec, m=Q, tag=''):
  o = out.r.ravel()
  return [(f'{tag}{k}', smt.Cong(o[k], spec[k], m)) for k in range(len(spec))]


def poly_mul_ob(n, da, db, tier='quick'):
  def inputs():
    return [varr('a', (n,), da, chunk=8), varr('b', (n,), db, chunk=8)]

  def goals(ins, outs):
    spec = common.negacyclic(list(ins[0].x), list(ins[1].x))
    return congs(outs[0], spec, tag='coeff')
  return Obl(f'poly_mul n={n} {da}x{db}', mu.poly_mul, inputs, goals,
             encoded=[mu.poly_mul, mu.toeplitz, mu.i32_as_u8_matmul],
             bounds=f'degree {n}, all coefficients symbolic ({da},{db})',
             tier=tier)


def poly_mul_listed(name, fn, sa, sb, pairs, tier='quick'):
  """pairs(a, b) -> list of (a_poly, b_poly) in output order."""
  def inputs():
    return [varr('a', sa, 'uint32', chunk=8), varr('b', sb, 'uint32', chunk=8)]

  def goals(ins, outs):
    spec = []
    for group in pairs(ins[0].x, ins[1].x):
      acc = None
      for p, q in group:
        s = common.negacyclic(list(p), list(q))
        acc = s if acc is None else [T.add(x, y) for x, y in zip(acc, s)]
      spec += acc
    return congs(outs[0], spec)
  return Obl(f'{name} {sa}x{sb}', fn, inputs, goals, encoded=[fn, mu.poly_mul],
             bounds=f'shapes {sa},{sb}, all uint32 entries symbolic',
             tier=tier)


def mono_spec(x, d, n):
  """X^d * x mod X^n+1 with symbolic d already reduced to [0,2n)."""
  cases = [common.signed_mono(list(x), k) for k in range(2 * n)]
  if not isinstance(d, T.Sym):
    return cases[int(d)]
  out = []
  for i in range(n):
    out.append(T.total([T.mul(T.eq(d, k), cases[k][i])
                        for k in range(2 * n)]))
  return out


def mono_ob(n, dt, ddt, logm, tier='quick', fn=None, lead=()):
  f = fn or mu.monomial_mul
  shape = lead + (n,)

  def inputs(c):
    return [varr('p', shape, dt), common.exponent('d', ddt, 2 * n, c)]

  def call(p, d):
    return f(p, d, logm)

  def goals(ins, outs):
    d = T.mod(ins[1].x.item(), 2 * n)
    rows = ins[0].x.reshape(-1, n)
    g = []
    m = 1 << (logm if 0 < logm < 32 else 32)
    for r in range(rows.shape[0]):
      spec = mono_spec(rows[r], d, n)
      o = outs[0].r.reshape(-1, n)[r]
      ox = outs[0].x.reshape(-1, n)[r]
      for k in range(n):
        g.append((f'r{r}c{k}', smt.Cong(o[k], spec[k], m)))
        if 0 < logm < 32:
          g.append((f'r{r}c{k} canonical', smt.In(ox[k], 0, m - 1)))
    return g
  return Obl(f'monomial_mul{len(lead)} n={n} {dt} deg:{ddt} logq={logm}', call,
             inputs, goals, encoded=[mu.monomial_mul],
             bounds=f'degree {n}, exponent over all of {ddt} (split by residue)',
             tier=tier, cases=list(range(2 * n)))


def scale_ob(shape, ddt, logm, tier='quick', dt='uint32'):
  n = shape[2]

  def inputs(c):
    return [common.exponent('d', ddt, 2 * n, c), varr('p', shape, dt)]

  def call(d, p):
    return mu.scale_by_x_power_n_minus_1(d, p, logm)

  def goals(ins, outs):
    d = T.mod(ins[0].x.item(), 2 * n)
    m = 1 << (logm if 0 < logm < 32 else 32)
    rows = ins[1].x.reshape(-1, n)
    o = outs[0].r.reshape(-1, n)
    g = []
    for r in range(rows.shape[0]):
      spec = mono_spec(rows[r], d, n)
      for k in range(n):
        g.append((f'r{r}c{k}', smt.Cong(o[r, k], T.sub(spec[k], rows[r, k]),
                                        m)))
        if m < 1 << 32:
          g.append((f'r{r}c{k} canonical', smt.In(
              outs[0].x.reshape(-1, n)[r, k], 0, m - 1)))
    return g
  return Obl(f'scale_by_x_power_n_minus_1 {shape} {ddt} logq={logm}', call,
             inputs, goals, encoded=[mu.scale_by_x_power_n_minus_1],
             bounds=f'shape {shape}, exponent over all of {ddt} (split by residue)',
             tier=tier, cases=list(range(2 * n)))


def xpow_ob(n, ddt, tier='quick'):
  def inputs(c):
    return [common.exponent('d', ddt, 2 * n, c)]

  def call(d):
    return mu.x_power_n_minus_1(d, n)

  def goals(ins, outs):
    d = T.mod(ins[0].x.item(), 2 * n)
    one = [1] + [0] * (n - 1)
    spec = mono_spec(one, d, n)
    return [(f'c{k}', smt.Eq(outs[0].x[k],
                             T.sub(spec[k], 1 if k == 0 else 0)))
            for k in range(n)]
  return Obl(f'x_power_n_minus_1 n={n} {ddt}', call, inputs, goals,
             encoded=[mu.x_power_n_minus_1],
             bounds=f'degree {n}, exponent over all of {ddt} (split by residue)',
             tier=tier, cases=list(range(2 * n)))


def idiv_ob(d, tier='quick'):
  def inputs():
    return [varr('v', (1,), 'uint32')]

  def call(v):
    return mu.integer_div(v, jnp.uint32(d))

  def goals(ins, outs):
    v, o = ins[0].x[0], outs[0].x[0]
    # round half up: o = floor((2v + d) / (2d))
    t = T.sub(T.add(T.mul(v, 2), d), T.mul(o, 2 * d))
    return [('round', smt.In(t, 0, 2 * d - 1))]
  return Obl(f'integer_div d={d}', call, inputs, goals,
             encoded=[mu.integer_div], bounds=f'divisor {d}, all uint32 values',
             tier=tier)


def idiv_sym_ob():
  def inputs():
    return [varr('v', (1,), 'uint32', 0, 255), varr('d', (), 'uint32', 1, 15)]

  def call(v, d):
    return mu.integer_div(v, d)

  def goals(ins, outs):
    v, o, d = ins[0].x[0], outs[0].x[0], ins[1].x.item()
    t = T.sub(T.add(T.mul(v, 2), d), T.mul(T.mul(o, d), 2))
    return [('lo', smt.Ge(t, 0)), ('hi', smt.Lt(t, T.mul(d, 2)))]
  return Obl('integer_div symbolic divisor', call, inputs, goals,
             encoded=[mu.integer_div], bounds='values < 256, divisor 1..15',
             nl=True)


def matmul_ob(name, fn, sl, sr, tier='quick', dl='uint32', dr='uint32',
              batched=False):
  def inputs():
    return [varr('l', sl, dl, chunk=8), varr('r', sr, dr, chunk=8)]

  def goals(ins, outs):
    l, r = ins[0].x.reshape(-1, sl[-1]), ins[1].x
    spec = []
    for i in range(l.shape[0]):
      for k in range(sr[1]):
        spec.append(T.dot(list(l[i]), list(r[:, k])))
    return congs(outs[0], spec)
  return Obl(f'{name} {sl}x{sr} {dl}', fn, inputs, goals, encoded=[fn],
             bounds=f'shapes {sl},{sr}, all entries symbolic', tier=tier)


def bat_ob(c, m, n, k, tier='quick'):
  def inputs():
    return [varr('l', (c, m, n, 4, 4), 'uint8'),
            varr('y', (c, n, k), 'uint32', chunk=8)]

  def goals(ins, outs):
    l, y = ins[0].x, ins[1].x
    spec = []
    for i in range(m):
      for j in range(k):
        xs, ys = [], []
        for a in range(c):
          for b in range(n):
            for p in range(4):
              for q in range(4):
                byte = T.mod(T.floordiv(y[a, b, j], 1 << (8 * q)), 256)
                xs.append(T.mul(l[a, i, b, p, q], 1 << (8 * p)))
                ys.append(byte)
        spec.append(T.dot(xs, ys))
    return congs(outs[0], spec)
  return Obl(f'bat_matmul c={c} m={m} n={n} k={k}', pk.bat_matmul, inputs,
             goals, encoded=[pk.bat_matmul],
             bounds='all byte matrices and operands symbolic', tier=tier)


def vec_mat_bat_ob(b, m, n, tier='quick'):
  def inputs():
    return [varr('v', (b, n), 'uint32', chunk=8),
            varr('M', (b, m, n, 4, 4), 'uint8')]

  def goals(ins, outs):
    v, M = ins[0].x, ins[1].x
    spec = []
    for j in range(m):
      acc = [0] * n
      for i in range(b):
        poly = [T.total([T.mul(M[i, j, t, p, 0], 1 << (8 * p))
                         for p in range(4)]) for t in range(n)]
        s = common.negacyclic(list(v[i]), poly)
        acc = [T.add(x, y) for x, y in zip(acc, s)]
      spec += acc
    return congs(outs[0], spec)
  return Obl(f'vector_matrix_polymul_bat b={b} m={m} n={n}',
             pk.negacyclic_vector_matrix_polymul_bat, inputs, goals,
             encoded=[pk.negacyclic_vector_matrix_polymul_bat],
             bounds=f'vector {b}, columns {m}, degree {n}', tier=tier)


def vmap_ob(total, batch, axis_in, axis_out, tier='quick'):
  """batch_vmap(f) == vmap(f) for a generic affine two-argument f."""
  def f(x, y):
    return x * 3 + y[0] * 5 - y[1]

  def inputs():
    sh = (total, 2) if axis_in == 0 else (2, total)
    return [varr('x', (total,), 'uint32'), varr('y', sh, 'uint32'),
            varr('z', (), 'uint32')]

  def call(x, y, z):
    g = lambda a, c, b: f(a, b) + c
    return jh.batch_vmap(g, in_axes=(0, None, axis_in), out_axes=axis_out,
                         batch_size=batch)(x, z, y)

  def goals(ins, outs):
    x, y, z = ins[0].x, ins[1].x, ins[2].x.item()
    if axis_in == 1:
      y = y.T
    spec = [T.total([T.mul(x[i], 3), T.mul(y[i, 0], 5),
                     T.sub(0, y[i, 1]), z]) for i in range(total)]
    return ([('shape', smt.TRUE if outs[0].shape == (total,) else smt.FALSE)]
            + congs(outs[0], spec))
  return Obl(f'batch_vmap total={total} batch={batch} in_axis={axis_in}', call,
             inputs, goals, encoded=[jh.batch_vmap],
             bounds='per-element affine function, all values symbolic',
             tier=tier)


def zip_rows(a, b):
  return [[(a[i], b[i])] for i in range(a.shape[0])]


def obligations(tier):
  U, I = 'uint32', 'int32'
  obs = []
  for n in (1, 2, 3, 4, 6, 8, 16):
    obs.append(poly_mul_ob(n, U, U))
  for n in (2, 5, 8):
    obs.append(poly_mul_ob(n, I, U))
    obs.append(poly_mul_ob(n, U, I))
  obs.append(poly_mul_ob(32, U, U, 'thorough'))
  obs.append(poly_mul_ob(24, I, I, 'thorough'))
  obs += [
      poly_mul_listed('poly_mul_list', mu.poly_mul_list, (3, 4), (3, 4),
                      zip_rows),
      poly_mul_listed('poly_mul_const_list', mu.poly_mul_const_list, (4,),
                      (3, 4), lambda a, b: [[(a, b[i])] for i in range(3)]),
      poly_mul_listed('poly_mul_const_matrix', mu.poly_mul_const_matrix, (4,),
                      (2, 3, 4), lambda a, b: [[(a, b[i, j])] for i in range(2)
                                               for j in range(3)]),
      poly_mul_listed('poly_dot_product', mu.poly_dot_product, (3, 4), (3, 4),
                      lambda a, b: [[(a[i], b[i]) for i in range(3)]]),
      poly_mul_listed('poly_dot_product', mu.poly_dot_product, (2, 8), (2, 8),
                      lambda a, b: [[(a[i], b[i]) for i in range(2)]]),
  ]
  for lb in (4, 6, 8):
    f = (lambda lb: lambda v, m: pk.negacyclic_vector_matrix_polymul(
        v, m, lb))(lb)
    for b, m, n in ((4, 2, 4), (6, 3, 2), (2, 2, 8)):
      o = poly_mul_listed(
          f'vector_matrix_polymul logB={lb}', f, (b, n), (b, m, n),
          (lambda b, m: lambda v, M: [[(v[i], M[i, j]) for i in range(b)]
                                      for j in range(m)])(b, m))
      o.encoded = [pk.negacyclic_vector_matrix_polymul, mu.poly_dot_product]
      obs.append(o)
  obs.append(vec_mat_bat_ob(3, 2, 4))
  obs.append(vec_mat_bat_ob(4, 3, 2))
  for n in (1, 2, 4, 8, 16):
    for ddt in (I, U):
      obs.append(mono_ob(n, U, ddt, 32))
  obs.append(mono_ob(4, I, I, 32))
  obs.append(mono_ob(4, U, I, 10))
  obs.append(mono_ob(8, U, U, 16))
  obs.append(mono_ob(4, U, I, 31))
  obs.append(mono_ob(2, U, I, 1))
  obs.append(mono_ob(64, U, I, 32, 'thorough'))
  obs.append(mono_ob(4, U, I, 32, fn=mu.monomial_mul_list, lead=(3,)))
  obs.append(mono_ob(4, U, I, 32, fn=mu.monomial_mul_matrix, lead=(2, 3)))
  for sh in ((2, 2, 4), (3, 2, 8), (1, 1, 1), (2, 1, 16)):
    for ddt in (I, U):
      obs.append(scale_ob(sh, ddt, 32))
  obs.append(scale_ob((2, 2, 4), I, 12))
  for lg in range(1, 32):
    obs.append(scale_ob((1, 1, 2), I, lg))
    obs.append(mono_ob(2, U, U, lg))
  obs.append(scale_ob((1, 1, 64), I, 32, 'thorough'))
  for n in (1, 2, 4, 8, 16):
    obs.append(xpow_ob(n, I))
    obs.append(xpow_ob(n, U))
  for d in (1, 2, 3, 5, 7, 1 << 10, 1 << 16, 1 << 22, 1 << 28, 3 << 20,
            1 << 31, (1 << 32) - 1, (1 << 31) + 1, 1000003):
    obs.append(idiv_ob(d))
  obs.append(idiv_sym_ob())
  obs.append(matmul_ob('i32_as_u8_matmul', mu.i32_as_u8_matmul, (3,), (3, 2)))
  obs.append(matmul_ob('i32_as_u8_matmul', mu.i32_as_u8_matmul, (8,), (8, 3),
                       dl=I))
  obs.append(matmul_ob('i32_as_u8_matmul', mu.i32_as_u8_matmul, (64,), (64, 2),
                       tier='thorough'))
  obs.append(matmul_ob('outer_product u8 matmul',
                       mu.hpmatmul_conv_adapt_outer_product, (2, 3), (3, 2)))
  obs.append(matmul_ob('convolution u8 matmul',
                       mu.hpmatmul_conv_adapt_conv, (2, 3), (3, 2)))
  obs.append(matmul_ob('fallback_i32_matmul', pk.fallback_i32_matmul, (2, 3),
                       (3, 2)))
  obs.append(bat_ob(2, 2, 2, 2))
  obs.append(bat_ob(1, 1, 4, 1))
  for t, b, ax in ((5, 2, 0), (4, 2, 1), (3, 5, 0), (7, 3, 1), (6, 1, 0)):
    obs.append(vmap_ob(t, b, ax, 0))
  return obs
