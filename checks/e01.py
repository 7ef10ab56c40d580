"""E01: multi-limb integer arithmetic is exact."""
JOBS = 8
ASSUMPTIONS = [
    'Limb counts and batch sizes are the listed ones; every operand inside '
    'the stated range is covered.',
]

from checks.ecc import *


def add(name, fn, k, n, batch, top, shape1=False, general=False):
  shape = (n,) if shape1 else (batch, n)

  def inputs():
    return [limbs('abc'[i], shape, top) for i in range(k)]

  def sums(ins):
    cols = [rows(a) for a in ins]
    return [T.total([num(c[r]) for c in cols]) for r in range(len(cols[0]))]

  def goals(ins, outs):
    return limb_goals('sum', outs[0], n, sums(ins))

  def assume(ins):
    return [smt.Le(s, (1 << (16 * n)) - 1) for s in sums(ins)]

  return Obl(name, fn, inputs, goals, encoded=[fn, ff.carry_propagation,
                                               ff.check_any_chunk_with_carry],
             assume=assume if general else None,
             bounds=f'{k} operands of {n} limbs, '
             + (f'top limb <= {top}' if top is not None
                else 'sum fits in the limbs') + f', shape {shape}')


def sub(n, batch, one=False, top=None):
  """top: bound on the minuend's top limb; its top limb is b's plus d."""
  shape = (n,) if one else (batch, n)

  def call(a, b):
    return ff.sub_2u16(a, b, chunk_num_u16=n)

  def inputs():
    a, b = limbs('a', shape), limbs('b', shape, top)
    if top is not None:
      d = varr('d', (batch,), U16, 0, top)
      x = a.r.copy()
      for r in range(batch):
        x[r, n - 1] = T.mk(T.add(b.x[r, n - 1], d.x[r]).p, 0, top)
      a = Arr(x, U16)
    return [a, b]

  def assume(ins):
    f = [smt.Le(num(b), num(a)) for a, b in zip(rows(ins[0]), rows(ins[1]))]
    if top is not None:
      f += [smt.Le(a[-1], top) for a in rows(ins[0])]
    return f

  def goals(ins, outs):
    return limb_goals('difference', outs[0], n,
                      [T.sub(num(a), num(b)) for a, b in
                       zip(rows(ins[0]), rows(ins[1]))])

  return Obl(f'sub_2u16 {n} limbs {shape}', call, inputs, goals,
             assume=assume, encoded=[ff.sub_2u16, ff.carry_propagation],
             bounds=f'a >= b, {n} limbs, shape {shape}'
             + (f', top limbs at most {top}' if top else ''))


def compare(n, batch):
  shape = (batch, n)

  def call(a, b):
    return ff.compare_u16(a, b, chunk_num_u16=n)

  def goals(ins, outs):
    g = []
    if outs[0].shape != (batch,):
      return [('one result per row', smt.FALSE)]
    for r, (a, b) in enumerate(zip(rows(ins[0]), rows(ins[1]))):
      c, d = outs[0].x[r], T.sub(num(a), num(b))
      for nm, f, h in (('positive', smt.Ge(c, 1), smt.Ge(d, 1)),
                       ('negative', smt.Le(c, -1), smt.Le(d, -1))):
        g.append((f'row {r} {nm} exactly when it should be',
                  smt.And(smt.Or(smt.Not(f), h), smt.Or(f, smt.Not(h)))))
    return g

  return Obl(f'compare_u16 {n} limbs x{batch}', call,
             lambda: [limbs('a', shape), limbs('b', shape)], goals,
             encoded=[ff.compare_u16], bounds=f'{n} limbs, batch {batch}')


def mul(n, batch, out_dt, axes=(0, 0), default=False):
  base = 8 if out_dt == U8 else 16

  def call(a, b):
    if default:
      return ff.mul_2u16(a, b)
    return ff.mul_2u16(a, b, chunk_num_u16=n, output_dtype=out_dt,
                       vmap_axes=axes)

  def inputs():
    return [limbs('a', (batch, n), chunk=8),
            limbs('b', (batch, n) if axes[1] == 0 else (n,), chunk=8)]

  def goals(ins, outs):
    a, b = rows(ins[0]), rows(ins[1])
    if axes[1] is None:
      b = b * batch
    return limb_goals('product', outs[0], 32 * n // base,
                      [T.mul(num(x), num(y)) for x, y in zip(a, b)], base)

  return Obl(f'mul_2u16 {n} limbs x{batch} -> {np.dtype(out_dt).name} {axes}'
             + (' (defaults)' if default else ''), call, inputs, goals,
             encoded=[ff.mul_2u16, ff.conv_1d_2u16xn, ff.rechunkify,
                      ff.carry_propagation],
             bounds=f'{n} limbs, batch {batch}')


def digits(v, n):
  """Concrete limbs of v, as the library's parameters want them."""
  return tuple((v >> (16 * i)) & 0xFFFF for i in range(n))


def cond_sub_mod(batch, n=24, p=None, below=None):
  q = p or P377

  def call(a):
    if p is None:
      return ff.cond_sub_mod_u16(a)
    return ff.cond_sub_mod_u16(a, modulus_377_int_chunk=digits(p, n),
                               chunk_num_u16=n)

  def inputs():
    top = q >> (16 * (n - 1))
    lo, hi = (0, 65535)
    if below is not None:
      lo, hi = (0, top - 1) if below else (top, 65535)
    k = batch * n
    los = [lo if i % n == n - 1 else 0 for i in range(k)]
    his = [hi if i % n == n - 1 else 65535 for i in range(k)]
    return [varr('a', (batch, n), U16, los, his)]

  def goals(ins, outs):
    g = []
    if outs[0].shape != (batch, n):
      return [('shape', smt.FALSE)]
    for r, (a, c) in enumerate(zip(rows(ins[0]), rows(outs[0]))):
      A = num(a)
      g += [(f'row {r} limb {i}', smt.In(v, 0, 65535))
            for i, v in enumerate(c)]
      g.append((f'row {r} a >= p', smt.Or(smt.Le(A, q - 1), smt.Eq(
          num(c), T.sub(A, q)))))
      g.append((f'row {r} a < p', smt.Or(smt.Ge(A, q), smt.Eq(num(c), A))))
    return g

  return Obl(f'cond_sub_mod_u16 {n} limbs x{batch}'
             + {None: '', True: ' top limb below', False: ' top limb not below'
                }[below], call, inputs, goals,
             encoded=[ff.cond_sub_mod_u16, ff.compare_u16, ff.sub_2u16],
             havoc=bool(below), while_bound=4 if below else 64,
             decide=bool(below),
             bounds=f'every operand of {n} limbs, modulus {q:#x}, batch {batch}'
             + ('; the discarded difference of an operand below the modulus is '
                'taken to be computed at all' if below else ''))


def cond_sub(batch, ge, n=24, p=None):
  q = p or P377
  top = q >> (16 * (n - 1))

  def call(a, b):
    if p is None:
      return ff.cond_sub_2u16(a, b)
    return ff.cond_sub_2u16(a, b, modulus_377_int_chunk=digits(p, n),
                            chunk_num_u16=n)

  def inputs():
    # the larger operand's top limb is the smaller's plus d
    lo, d = limbs('s', (batch, n), top), varr('d', (batch,), U16, 0, top)
    hi = limbs('l', (batch, n), top)
    x = hi.r.copy()
    for r in range(batch):
      x[r, n - 1] = T.mk(T.add(lo.x[r, n - 1], d.x[r]).p, 0, top)
    hi = Arr(x, U16)
    return [hi, lo] if ge else [lo, hi]

  def assume(ins):
    f = [smt.Le(num(v), q - 1) for a in ins for v in rows(a)]
    for a, b in zip(rows(ins[0]), rows(ins[1])):
      f.append(smt.Le(num(b), num(a)) if ge else
               smt.Le(T.add(num(a), 1), num(b)))
      f.append(smt.Le(a[-1], top))
      f.append(smt.Le(b[-1], top))
    return f

  def goals(ins, outs):
    return limb_goals('difference', outs[0], n,
                      [T.add(T.sub(num(a), num(b)), 0 if ge else q)
                       for a, b in zip(rows(ins[0]), rows(ins[1]))])

  return Obl(f'cond_sub_2u16 {n} limbs x{batch} {"a >= b" if ge else "a < b"}',
             call, inputs, goals, assume=assume, decide=True,
             encoded=[ff.cond_sub_2u16, ff.compare_u16, ff.sub_2u16],
             bounds=f'a, b < p = {q:#x}, batch {batch}')


def carry(n):
  """carry_add settles carries of wide chunks."""
  hi = [(1 << 31)] * (n - 1) + [0x7fff]

  def goals(ins, outs):
    return limb_goals('value', outs[0], n, [num(list(ins[0].x))])

  return Obl(f'carry_add {n} chunks', lambda v: ff.carry_add(v, iter_num=n),
             lambda: [varr('v', (n,), U32, [0] * n, hi)], goals,
             encoded=[ff.carry_add],
             bounds=f'{n} chunks up to 2^31, top chunk up to 0x7fff')


def carry_step(n, batch, wide):
  """One propagation step keeps the value; no chunk is lost."""
  base = 32 if wide else 16
  dt = U64 if wide else U32
  mask = (1 << base) - 1
  top = mask

  def call(v):
    return ff.carry_propagation(v, mask, base), ff.check_any_chunk_with_carry(
        v, base)

  def inputs():
    hi = ([(1 << (base + 16)) - 1] * (n - 1) + [top]) * batch
    if not wide:
      hi = ([(1 << 32) - 1] * (n - 1) + [top]) * batch
    return [varr('v', (batch, n), dt, [0] * len(hi), hi)]

  def goals(ins, outs):
    g = []
    if outs[0].shape != (batch, n):
      return [('shape', smt.FALSE)]
    for r, (a, b) in enumerate(zip(rows(ins[0]), rows(outs[0]))):
      g.append((f'row {r} value', smt.Eq(num(b, base), num(a, base))))
    small = smt.And(*[smt.Le(v, mask) for a in rows(ins[0]) for v in a])
    c = smt.Eq(outs[1].x.item(), 0)
    g.append(('says carry exactly when a chunk is too wide',
              smt.And(smt.Or(smt.Not(c), small), smt.Or(c, smt.Not(small)))))
    return g

  return Obl(f'carry_propagation {n} chunks of {base} bits x{batch}', call,
             inputs, goals, encoded=[ff.carry_propagation,
                                     ff.check_any_chunk_with_carry],
             bounds=f'{n} chunks, carries of at most 16 bits, none out of the '
             'top')


def rechunk(n, batch):
  """rechunkify merges bytes-with-carries into 32-bit chunks, value kept."""
  shape = (n,) if batch is None else (batch, n)
  hi = 100 * 255 * 255

  def call(v):
    return ff.rechunkify(v, n // 2, n // 4)

  def goals(ins, outs):
    if outs[0].shape != shape[:-1] + (n // 4,):
      return [('shape', smt.FALSE)]
    return [(f'row {r} value', smt.Eq(num(b, 32), num(a, 8)))
            for r, (a, b) in enumerate(zip(rows(ins[0]), rows(outs[0])))]

  return Obl(f'rechunkify {shape}', call,
             lambda: [varr('v', shape, U32, 0, hi)], goals,
             encoded=[ff.rechunkify], bounds=f'{n} byte sums up to {hi}')


def obligations(tier):
  obs = [
      carry(24), carry(5), carry_step(24, 2, False), carry_step(12, 1, True),
      carry_step(2, 1, False), rechunk(96, 1), rechunk(8, 2), rechunk(8, None),
      add('add_2u16 24 limbs x2', ff.add_2u16, 2, 24, 2, 0x7fff),
      add('add_2u16 24 limbs', ff.add_2u16, 2, 24, 1, 0x7ffe, shape1=True),
      add('add_2u16 25 limbs x1', ff.add_2u16, 2, 25, 1, 0x7fff),
      add('add_2u16 2 limbs', ff.add_2u16, 2, 2, 1, None, general=True),
      add('add_2u16 3 limbs', ff.add_2u16, 2, 3, 1, None, general=True),
      add('add_3u16 24 limbs x2', ff.add_3u16, 3, 24, 2, 0x5554),
      add('add_3u16 3 limbs', ff.add_3u16, 3, 3, 1, None, general=True),
      compare(1, 2), compare(3, 1), compare(24, 2),
      sub(2, 2), sub(3, 1), sub(4, 1, one=True),
      sub(24, 2, top=65535), sub(48, 1, top=3), sub(25, 1, top=65535),
      mul(2, 2, U16), mul(3, 1, U8), mul(24, 1, U16, default=True),
      mul(24, 2, U16, (0, None)), mul(25, 1, U8),
      cond_sub_mod(1, 2, 0x1ae3a46), cond_sub_mod(1, 3, 0x9f3a123401ae),
      cond_sub_mod(2, below=True), cond_sub_mod(2, below=False),
      cond_sub(1, True), cond_sub(1, False), cond_sub(2, True, 2, 0x1ae3a46),
      cond_sub(2, False, 2, 0x1ae3a46),
  ]
  return obs
