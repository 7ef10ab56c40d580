"""K11: blind rotation."""
JOBS = 8
ASSUMPTIONS = [
    'Ring sizes, modulus chains and rotation amounts are the listed ones; '
    'every reduced ciphertext and every reduced key is covered.',
    'Barrett reduction is replaced by its contract (decided by K01), its '
    'input range being proved here as a side goal.',
    'One digit (dnum = 1), the shape of the keys gen_hmuxrot_key makes.',
]

import math
import jax
import jax.numpy as jnp
import numpy as np
from checks.ckks import *
from checks.k03 import primes, evaluate, interpolate
from checks.k05 import lift
from checks.k08 import mods
from checks.k09 import rescale_spec
from checks.k10 import ks_spec
from jaxite.jaxite_ckks import (basis_conversion, blind_rotate,
                                blind_rotate_utils, mul, ntt, types)


def auto(x, q, g):
  """a(X) -> a(X^g) on values in evaluation form (list of N terms)."""
  n = len(x)
  c = interpolate(list(x), q)
  d = [None] * n
  for t in range(n):
    e = t * g % (2 * n)
    d[e % n] = c[t] if e < n else T.sub(0, c[t])
  return [T.mod(v, q) for v in evaluate(d, q)]


def auto_arr(x, qs, g):
  out = np.empty(x.shape, object)
  for lead in np.ndindex(*x.shape[:-2]):
    for i, q in enumerate(qs):
      for t, v in enumerate(auto(x[lead][:, i], q, g)):
        out[lead + (t, i)] = v
  return out


def automorphism(n, qs, g, lead):
  shape = lead + (n, len(qs))

  def goals(ins, outs):
    if outs[0].shape != shape:
      return [('shape', smt.FALSE)]
    want = auto_arr(ins[0].x, qs, g)
    return [(f'{i}', smt.Eq(outs[0].x[i], want[i]))
            for i in np.ndindex(*shape)]
  return Obl(f'automorphism N={n} g={g} {lead}',
             lambda x: blind_rotate_utils.apply_automorphism_ntt(x, g),
             lambda: [residues('x', shape, qs)], goals,
             encoded=[blind_rotate_utils.apply_automorphism_ntt],
             bounds=f'every reduced input; moduli {qs}')


def lifted(qs, ps, r, c, e, pad):
  n = r * c
  shape = (e, n, len(qs))
  alls = list(qs) + list(ps)

  def call(x):
    bc = basis_conversion.BasisConversionBarrett()
    bc.precompute_constants(alls, [([len(qs)], [0])] * pad + [
        (list(range(len(qs))), list(range(len(qs), len(alls))))])
    nq, np_ = ntt.NTTBarrett(), ntt.NTTBarrett()
    nq.precompute_constants(list(qs), r, c)
    np_.precompute_constants(list(ps), r, c)
    o = blind_rotate_utils.lift_ciphertext(
        types.Ciphertext(x, jnp.array(qs, dtype=U32)), bc, pad,
        jnp.array(ps, dtype=U32), nq, np_, r, c)
    return o.data, o.moduli

  def goals(ins, outs):
    x = ins[0].x
    if outs[0].shape != (e, n, len(alls)):
      return [('shape', smt.FALSE)]
    g = [(f'modulus {i}', smt.Eq(outs[1].x[i], m))
         for i, m in enumerate(alls)]
    for k in range(e):
      for i in range(len(qs)):
        for t in range(n):
          g.append((f'kept {k},{t},{i}', smt.Eq(outs[0].x[k, t, i],
                                                x[k, t, i])))
      co = [mods(interpolate(list(x[k, :, i]), q), q)
            for i, q in enumerate(qs)]
      y = [lift([v[t] for v in co], qs)[0] for t in range(n)]
      for j, p in enumerate(ps):
        v = evaluate(mods(y, p), p)
        for t in range(n):
          o = outs[0].x[k, t, len(qs) + j]
          g += [(f'lift {k},{t},{j}', smt.Cong(o, v[t], p)),
                (f'range {k},{t},{j}', smt.In(o, 0, p - 1))]
    return g
  return Obl(f'lift_ciphertext {r}x{c} {len(qs)}->{len(ps)} x{e} from {pad}',
             call, lambda: [residues('x', shape, qs)], goals, opaque=OPAQUE,
             encoded=[blind_rotate_utils.lift_ciphertext],
             bounds=f'every reduced ciphertext; q={qs} p={ps}')


def kernel(qs, ps, r, c, how, nres=None):
  k = blind_rotate.BlindRotation()
  if how == 'again':
    k.precompute_constants(list(ps), list(qs)[:1], 1, r, c)
  k.precompute_constants(list(qs), list(ps), 1, r, c,
                         num_rescales=len(ps) if nres is None else nres)
  if how == 'tree':
    leaves, tree = jax.tree_util.tree_flatten(k)
    k = jax.tree_util.tree_unflatten(tree, leaves)
  return k


def hmux_spec(x, k0, k1, j, qs, ps):
  """x: (2,N,L), k0/k1: (2,N,L+K) as (b, a)."""
  alls = list(qs) + list(ps)
  n = x.shape[1]
  g = pow(5, -j, 2 * n)
  rot = auto_arr(x, qs, g)
  z = np.zeros(rot[:1].shape, object)
  s = ks_spec(np.concatenate([z, rot[1:2]]), k0[1:2], k0[0:1], qs, ps, 1)
  t = ks_spec(np.concatenate([z, rot[0:1]]), k1[1:2], k1[0:1], qs, ps, 1)
  o = np.empty(s.shape, object)
  for i in np.ndindex(*s.shape):
    o[i] = T.mod(T.add(s[i], t[i]), alls[i[2]])
  return rescale_spec(o, alls, len(ps))[0]


def keys(name, n, alls, count):
  return [residues(f'{name}{k}_', (2, n, len(alls)), alls)
          for k in range(count)]


def hmux(qs, ps, r, c, j, how='plain', mdt=U32):
  n, alls = r * c, list(qs) + list(ps)

  def call(x, k0, k1):
    k = kernel(qs, ps, r, c, how)
    am = jnp.array(alls, dtype=U64)
    ct = types.Ciphertext(x, jnp.array(qs, dtype=mdt))
    o = k.hmuxrot(ct, types.HMuxRotKey(types.Ciphertext(k0, am),
                                       types.Ciphertext(k1, am)), j,
                  jnp.array(ps, dtype=mdt))
    return o.data, o.moduli, ct.data

  def goals(ins, outs):
    if outs[0].shape != (2, n, len(qs)):
      return [('shape', smt.FALSE)]
    spec = hmux_spec(ins[0].x, ins[1].x, ins[2].x, j, qs, ps)
    g = canon('', outs[0], qs, spec)
    g += [(f'modulus {i}', smt.Eq(outs[1].x[i], q)) for i, q in enumerate(qs)]
    return g + [(f'input kept {i}', smt.Eq(outs[2].x[i], ins[0].x[i]))
                for i in np.ndindex(*outs[2].shape)]
  return Obl(f'hmuxrot {r}x{c} q={len(qs)} p={len(ps)} j={j} {how} {mdt}',
             call, lambda: [residues('x', (2, n, len(qs)), qs)] +
             keys('k', n, alls, 2), goals, opaque=OPAQUE, nl=True,
             encoded=[blind_rotate.BlindRotation.hmuxrot,
                      blind_rotate.BlindRotation.precompute_constants],
             bounds=f'every reduced ciphertext and key; q={qs} p={ps}')


def brot(qs, ps, r, c, bits, stride):
  n, alls = r * c, list(qs) + list(ps)

  def call(x, *ks):
    k = kernel(qs, ps, r, c, 'plain')
    am = jnp.array(alls, dtype=U64)
    hk = [types.HMuxRotKey(types.Ciphertext(ks[2 * i], am),
                           types.Ciphertext(ks[2 * i + 1], am))
          for i in range(2 * bits)]
    mk = types.MuxRotationKey([(hk[2 * i], hk[2 * i + 1])
                               for i in range(bits)])
    kw = {} if stride is None else {'stride': stride}
    pl = jnp.array(ps, dtype=U32)
    o = k.brot_mux(types.Ciphertext(x, jnp.array(qs, dtype=U32)), mk, pl, **kw)
    # the same steps through the public hmuxrot (decided above)
    ct = types.Ciphertext(x, jnp.array(qs, dtype=U32))
    last = []
    for b in range(bits):
      u = k.hmuxrot(ct, hk[2 * b], 2**b * (stride or 1), pl)
      v = k.hmuxrot(ct, hk[2 * b + 1], 0, pl)
      last = [u.data, v.data]
      m = jnp.array(qs, dtype=U64)
      s = u.data.astype(U64) + v.data.astype(U64)
      ct = types.Ciphertext(
          jnp.where(s >= m, s - m, s).astype(U32), jnp.array(qs, dtype=U32))
    return [o.data, o.moduli] + last

  def goals(ins, outs):
    if outs[0].shape != (2, n, len(qs)):
      return [('shape', smt.FALSE)]
    spec = np.empty(outs[0].shape, object)
    for i in np.ndindex(*spec.shape):
      spec[i] = T.add(outs[2].x[i], outs[3].x[i])
    return canon('', outs[0], qs, spec) + [
        (f'modulus {i}', smt.Eq(outs[1].x[i], q)) for i, q in enumerate(qs)]
  return Obl(f'brot_mux {r}x{c} q={len(qs)} p={len(ps)} bits={bits} '
             f'stride={stride}', call,
             lambda: [residues('x', (2, n, len(qs)), qs)] +
             keys('k', n, alls, 4 * bits), goals, opaque=OPAQUE, nl=True,
             encoded=[blind_rotate.BlindRotation.brot_mux],
             bounds=f'every reduced ciphertext and key; q={qs} p={ps}')


def column(qs, ps, r, c, count, mdt=U32):
  n, alls = r * c, list(qs) + list(ps)

  def call(x, p):
    k = kernel(qs, ps, r, c, 'plain')
    am = jnp.array(alls, dtype=mdt)
    o = k.brot_cm([types.Ciphertext(x[i], am) for i in range(count)],
                  [types.Plaintext(p[i], am) for i in range(count)])
    return o.data, o.moduli

  def goals(ins, outs):
    x, p = ins[0].x, ins[1].x
    s = np.empty((2, n, len(alls)), object)
    for e, t, j in np.ndindex(*s.shape):
      s[e, t, j] = T.mod(T.total([T.mul(x[i, e, t, j], p[i, t, j])
                                  for i in range(count)]), alls[j])
    spec, rest = rescale_spec(s, alls, len(ps))
    if outs[0].shape != spec.shape:
      return [('shape', smt.FALSE)]
    return canon('', outs[0], rest, spec) + [
        (f'modulus {i}', smt.Eq(outs[1].x[i], q)) for i, q in enumerate(rest)]
  return Obl(f'brot_cm {r}x{c} q={len(qs)} p={len(ps)} #{count}', call,
             lambda: [residues('x', (count, 2, n, len(alls)), alls),
                      residues('p', (count, n, len(alls)), alls)], goals,
             opaque=OPAQUE, nl=True,
             encoded=[blind_rotate.BlindRotation.brot_cm],
             bounds=f'every reduced input; moduli {alls}')


def mismatch():
  def call(x, p):
    k = kernel([97, 193], [257], 2, 2, 'plain')
    am = jnp.array([97, 193, 257], dtype=U32)
    return k.brot_cm([types.Ciphertext(x[0], am)] * 2,
                     [types.Plaintext(p[0], am)]).data
  return Obl('brot_cm lengths differ', call,
             lambda: [residues('x', (1, 2, 4, 3), [97, 193, 257]),
                      residues('p', (1, 4, 3), [97, 193, 257])],
             lambda i, o: [('refused', smt.FALSE)],
             on_raise=lambda i, e: [('is ValueError', smt.TRUE if isinstance(
                 e, ValueError) else smt.FALSE)],
             encoded=[blind_rotate.BlindRotation.brot_cm], bounds='one state')


def obligations(tier):
  p31, p30, p28 = primes(64, 31, 3), primes(64, 30, 8), primes(64, 28, 3)
  q2, s1, s2 = p30[:2], p30[5:6], p30[5:7]
  obs = []
  for n in (2, 4, 8, 16):
    for g in sorted({1, 5 % (2 * n), 2 * n - 1, 3 % (2 * n),
                     pow(5, -1, 2 * n), 2 * n + 5}):
      obs.append(automorphism(n, [97, p30[0]], g, ()))
  obs += [
      automorphism(8, q2, 5, (2,)), automorphism(4, q2, 13, (1, 2)),
      lifted(q2, s1, 2, 2, 2, 0), lifted(p30[:3], s2, 2, 1, 2, 1),
      lifted([97, p31[0]], [12289], 2, 2, 1, 0),
      hmux(q2, s1, 2, 2, 1), hmux(q2, s1, 2, 1, 0), hmux(q2, s2, 2, 1, 3),
      hmux(p30[:1], s1, 2, 4, 2), hmux(p30[:1], s1, 2, 2, -1, mdt=U64),
      hmux([97, p28[0]], p31[:1], 2, 2, 1), hmux(q2, s1, 2, 2, 1, 'tree'),
      hmux(q2, s1, 2, 1, 1, 'again'),
      brot(p30[:1], s1, 2, 2, 1, None), brot(p30[:1], s1, 2, 4, 1, 3),
      brot(q2, s1, 2, 1, 2, 1),
      brot([97], [193], 2, 2, 2, None),
      column(q2, s1, 2, 2, 3), column(p31[:1], p31[1:2], 2, 2, 5),
      column([97, 193], s2, 2, 1, 4), mismatch(),
  ]
  if tier == 'thorough':
    obs += [brot([97], [193], 2, 4, 2, 1), hmux(p30[:2], s2, 2, 4, 3), brot(p30[:1], s1, 2, 4, 2, 1),
            brot(p30[:1], s1, 4, 4, 1, 5), column(q2, s2, 2, 4, 8)]
    for g in range(1, 64, 2):
      obs.append(automorphism(32, [193], g, ()))
  return obs
