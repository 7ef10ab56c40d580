"""Obligations: trace the real code, encode, ask the solver, replay."""

import contextlib
import hashlib
import inspect
import json
import os
import random
import sys
sys.set_int_max_str_digits(0)
import time
import traceback

import numpy as np

from jv import smt
from jv import terms as T
from jv.smt import F, TRUE, FALSE
from jv.terms import Sym, Unsupported


class Inconclusive(Exception):
  pass


OUTCOMES = (ValueError, AssertionError, KeyError, IndexError,
            ZeroDivisionError, OverflowError, StopIteration)
try:
  import jax as _jax
  NOT_OUTCOMES = (Unsupported, Inconclusive, _jax.errors.JAXTypeError,
                  _jax.errors.JAXIndexError)
except Exception:  # pragma: no cover
  NOT_OUTCOMES = (Unsupported, Inconclusive)


class Arr:
  """Array of machine values with a dtype. `.r` raw elements, `.x` exact."""

  def __init__(self, o, dtype):
    self.dtype = np.dtype(dtype)
    if not (isinstance(o, np.ndarray) and o.dtype == object):
      from jv import jaxsym
      o = jaxsym.as_obj(o)
    self.r = o
    self._x = None

  @property
  def shape(self):
    return self.r.shape

  @property
  def x(self):
    if self._x is None:
      from jv import jaxsym as J
      if self.dtype.kind == 'b':
        self._x = self.r
      else:
        self._x = J.map1(lambda v: J.ex(v, self.dtype), self.r)
    return self._x

  def __getitem__(self, i):
    v = self.r[i]
    return Arr(v, self.dtype) if isinstance(v, np.ndarray) else v


def obj(shape, flat):
  o = np.empty(int(np.prod(shape, dtype=np.int64)), dtype=object)
  for i, v in enumerate(flat):
    o[i] = v
  return o.reshape(shape)


def varr(name, shape, dtype, lo=None, hi=None, chunk=None, samp=None):
  """Array of symbolic inputs. chunk=k splits each value into k-bit atoms."""
  from jv import jaxsym as J
  dlo, dhi = J.dt_range(dtype)
  lo = dlo if lo is None else lo
  hi = dhi if hi is None else hi
  n = int(np.prod(shape, dtype=np.int64)) if shape != () else 1
  flat = []
  for i in range(n):
    nm = f'{name}{i}'
    l = lo[i] if isinstance(lo, (list, tuple, np.ndarray)) else lo
    h = hi[i] if isinstance(hi, (list, tuple, np.ndarray)) else hi
    if chunk is None:
      flat.append(T.var(nm, int(l), int(h), samp))
    else:
      # h must be 2^k - 1; l = 0 or -(2^(k))
      w = (int(h) - int(l)).bit_length()
      parts = []
      b = 0
      while b < w:
        k = min(chunk, w - b)
        parts.append(T.mul(T.var(f'{nm}_{b}', 0, (1 << k) - 1), 1 << b))
        b += k
      t = T.total(parts)
      if int(l) != 0:
        t = T.add(t, int(l))
      flat.append(t)
  return Arr(obj(shape, flat), dtype)


def const(a):
  a = np.asarray(a)
  return Arr(a, a.dtype)


class Obl:
  """One proof obligation about real functions."""

  def __init__(self, name, fn, inputs, goals, *, encoded=(), bounds='',
               assume=None, raises=(), on_raise=None, nl=False, timeout=60,
               chunk=40, samples=3, tier='quick', mode='jax', opaque=None,
               max_paths=64, x64=None, while_bound=64, note='', split=False,
               pyctx=None, cases=None, patches=(), share=False,
               contracts=(), havoc=False, decide=False, nowrap=False,
               lemmas=None, validate=True):
    self.__dict__.update(locals())
    del self.__dict__['self']


class _IntMeta(type):

  def __instancecheck__(cls, x):
    return isinstance(x, int)


class SymInt(metaclass=_IntMeta):
  """Stands for int() while tracing: identity on traced scalars."""

  def __new__(cls, x=0, *a):
    import jax
    if isinstance(x, jax.core.Tracer):
      return x
    return int(x, *a)


@contextlib.contextmanager
def patched(patches):
  """Set attributes for the duration of tracing."""
  old = []
  missing = object()
  try:
    for o, k, v in patches:
      old.append((o, k, o.__dict__.get(k, missing)))
      setattr(o, k, v)
    yield
  finally:
    for o, k, v in reversed(old):
      if v is missing:
        delattr(o, k)
      else:
        setattr(o, k, v)


# ---------------------------------------------------------------- jax tracing
def _trace_paths(ob, ins):
  """Yield (conds, decisions, outs, exc) for each control path."""
  import jax
  import jax.numpy as jnp
  from jax._src import core as jc
  from jv import jaxsym as J

  Tracer = jc.Tracer
  orig_bool = Tracer.__bool__
  prefixes = [[]]
  seen = 0
  results = []
  while prefixes:
    prefix = prefixes.pop()
    state = {'k': 0, 'dec': [], 'conds': [], 'exc': None, 'tree': None}

    def fake_bool(self):
      k = state['k']
      state['k'] += 1
      d = prefix[k] if k < len(prefix) else True
      state['dec'].append(d)
      state['conds'].append(self)
      return d

    def wrapper(*args):
      try:
        out = ob.fn(*args)
      except OUTCOMES + tuple(ob.raises) as e:  # exceptions are outcomes
        if isinstance(e, NOT_OUTCOMES):
          raise
        state['exc'] = e
        out = ()
      flat, tree = jax.tree_util.tree_flatten(out)
      state['tree'] = tree
      flat = [jnp.asarray(v) for v in flat]
      return flat, [jnp.asarray(c) for c in state['conds']]

    sds = [jax.ShapeDtypeStruct(a.shape, a.dtype) for a in ins]
    memo = ob.__dict__.setdefault('memo', {}) if ob.share else None
    mk = (tuple(prefix), str(sds))
    if memo is not None and mk in memo:
      closed, state = memo[mk]
    else:
      Tracer.__bool__ = fake_bool
      try:
        with patched(ob.patches):
          closed = jax.make_jaxpr(wrapper)(*sds)
      finally:
        Tracer.__bool__ = orig_bool
      if memo is not None:
        memo[mk] = (closed, state)
    I = J.Interp(opaque=ob.opaque, while_bound=ob.while_bound,
                 prune=lambda c: _never(c), contracts=ob.contracts,
                 havoc=ob.havoc, decide=_fixed if ob.decide else None)
    J.NOWRAP = _never if ob.nowrap else None
    try:
      res = I.run(closed, [a.r for a in ins])
    finally:
      J.NOWRAP = None
    nco = len(state['conds'])
    nout = len(res) - nco
    outs = [Arr(r, v.aval.dtype) for r, v in
            zip(res[:nout], closed.jaxpr.outvars[:nout])]
    conds = [J.as_obj(c).item() for c in res[nout:]]
    conds_dt = [v.aval.dtype for v in closed.jaxpr.outvars[nout:]]
    pc = []
    for c, d, dt in zip(conds, state['dec'], conds_dt):
      if np.dtype(dt).kind != 'b':
        c = T.b_not(T.eq(J.ex(c, dt), 0))
      pc.append(smt.B(c) if d else smt.Not(smt.B(c)))
    results.append((pc, outs, state['exc'], state['tree'], I.prims,
                    list(I.side)))
    dec = state['dec']
    for k in range(len(prefix), len(dec)):
      prefixes.append(dec[:k] + [not dec[k]])
    seen += 1
    if seen > ob.max_paths:
      raise Unsupported('too many paths')
  return results


def _never(c):
  """Solver: is 0/1 term c always 0?"""
  f = [smt.B(c)] + T.CTX.assumptions + T.CTX.facts
  txt, ins, em = smt.build(f)
  r, _ = smt.run_solver(txt, [], 20)
  return r == 'unsat'


def _fixed(c):
  """Solver: 0 / 1 when term c always has that value, else None."""
  if _never(c):
    return 0
  return 1 if _never(T.b_not(c)) else None


def run_concrete(ob, cins):
  """Run the real function on concrete inputs; (outs, exc)."""
  import jax
  import jax.numpy as jnp
  from jv import jaxsym as J
  args = []
  for a in cins:
    args.append(jnp.asarray(J.pack(a.r, a.dtype), dtype=a.dtype))
  try:
    out = ob.fn(*args)
  except OUTCOMES + tuple(ob.raises) as e:
    return [], e
  flat, _ = jax.tree_util.tree_flatten(out)
  outs = []
  for v in flat:
    v = np.asarray(v) if not hasattr(v, 'dtype') else v
    v = np.asarray(v)
    outs.append(Arr(v, v.dtype))
  return outs, None


def concretise(ins, env):
  out = []
  for a in ins:
    o = obj(a.shape, [T.value(v, env) for v in a.r.ravel()])
    out.append(Arr(o, a.dtype))
  return out


def goals_of(ob, ins, outs, exc):
  if exc is not None:
    if ob.on_raise is None or (ob.raises and
                               not isinstance(exc, tuple(ob.raises))):
      return [(f'raises {type(exc).__name__}: {str(exc)[:80]}', FALSE)]
    return list(ob.on_raise(ins, exc))
  try:
    return list(ob.goals(ins, outs))
  except (IndexError, TypeError) as e:
    # the specification indexes results by the documented shape
    where = traceback.extract_tb(e.__traceback__)
    if not any('/checks/' in t.filename for t in where):
      raise
    return [(f'results have the documented shape ({type(e).__name__})', FALSE)]


def check_concrete(ob, env, ins):
  """Replay on the real code. Returns (list of failed labels, cins, outs)."""
  env = dict(env)
  cins = concretise(ins, env)
  if ob.mode == 'py':
    outs, exc = ob.pyctx.run_concrete(ob, cins)
  else:
    outs, exc = run_concrete(ob, cins)
  gs = goals_of(ob, cins, outs, exc)
  bad = [l for l, f in gs if not smt.f_eval(f, {})]
  return bad, cins, outs


def _fill_env(env, rng):
  """Give every input atom a value."""
  e = dict(env)
  for a in T.CTX.atoms:
    if a.kind == 'in' and a.id not in e:
      e[a.id] = min(max(0, a.lo), a.hi) if rng is None else rng.randint(
          a.lo, a.hi)
  return e


def holds(fs, env):
  e = dict(env)
  return all(smt.f_eval(f, e) for f in fs)


class Result:

  def __init__(self, name):
    self.name = name
    self.status = 'ok'  # ok | violation | inconclusive
    self.detail = ''
    self.goals = 0
    self.trivial = 0
    self.paths = 0
    self.atoms = 0
    self.validated = 0
    self.prims = {}
    self.cex = None
    self.queries = 0
    self.solver_s = 0.0
    self.wall_s = 0.0
    self.encoded = []
    self.bounds = ''
    self.witness = None
    self.crosschecked = 0


def decide(ob, seed, cross=False):
  """Run one obligation."""
  res = Result(ob.name)
  t0 = time.time()
  q0, s0 = smt.STATS['queries'], smt.STATS['solver_s']
  res.bounds = ob.bounds
  rng = random.Random(seed * 7919 + sum(map(ord, ob.name)))
  natoms = 0
  try:
    for case in (ob.cases or [None]):
      T.reset()
      ob.case = case
      _decide(ob, res, rng, cross)
      natoms += len(T.CTX.atoms)
      if res.status != 'ok':
        if case is not None:
          res.detail += f' [case {case}]'
        break
  except Inconclusive as e:
    res.status, res.detail = 'inconclusive', str(e)
  except Exception as e:  # encoding failed: fall back on a concrete look
    res.status = 'inconclusive'
    res.detail = f'{type(e).__name__}: {e}\n' + traceback.format_exc()[-1500:]
    try:
      _concrete_hunt(ob, res, rng)
    except Exception as e2:
      res.detail += f'\n(hunt: {type(e2).__name__}: {e2})'
  res.queries = smt.STATS['queries'] - q0
  res.solver_s = smt.STATS['solver_s'] - s0
  res.atoms = max(natoms, len(T.CTX.atoms))
  res.wall_s = time.time() - t0
  for e in ob.encoded:
    res.encoded.append(_loc(e))
  return res


def _loc(e):
  if isinstance(e, str):
    return e
  try:
    f = inspect.unwrap(e)
    f = getattr(f, '__wrapped__', f)
    src = inspect.getsourcefile(f)
    _, line = inspect.getsourcelines(f)
    return f'{os.path.relpath(src, "/repo")}:{line} {f.__qualname__}'
  except Exception:
    return getattr(e, '__name__', str(e))


def _inputs(ob):
  if ob.cases:
    return ob.inputs(ob.case)
  return ob.inputs()


def _concrete_hunt(ob, res, rng, n=40):
  """The encoding failed; look for a concrete failure on the real code."""
  T.reset()
  ins = _inputs(ob)
  assume = list(ob.assume(ins)) if ob.assume else []
  for k in range(n):
    env = T.sample_env(rng)
    if assume and not holds(assume, env):
      continue
    bad, cins, outs = check_concrete(ob, env, ins)
    if bad:
      _set_violation(res, bad, cins, outs, 'concrete replay after the '
                     'encoding of the changed code failed: ' + res.detail[:200])
      return


def _set_violation(res, bad, cins, outs, how):
  res.status = 'violation'
  res.detail = f'{bad[:3]} ({how})'
  res.cex = {
      'inputs': [{'dtype': str(a.dtype), 'shape': list(a.shape),
                  'values': [str(v) for v in a.r.ravel()]} for a in cins],
      'outputs': [{'dtype': str(a.dtype), 'shape': list(a.shape),
                   'values': [str(v) for v in a.r.ravel()][:256]}
                  for a in outs],
      'failed': bad[:10], 'how': how,
  }


def _decide(ob, res, rng, cross):
  T.CTX.narrow = ob.nowrap
  ins = _inputs(ob)
  assume = list(ob.assume(ins)) if ob.assume else []
  T.CTX.assumptions = assume
  if ob.mode == 'py':
    paths = ob.pyctx.trace(ob, ins)
  else:
    paths = _trace_paths(ob, ins)
  res.paths += len(paths)
  envs = []
  # vacuity: the assumptions are satisfiable, with a concrete witness
  if assume:
    r, env = solve(assume, ob, nl=True)
    if r != 'sat':
      raise Inconclusive(f'assumptions not shown satisfiable ({r})')
    env = _fill_env(env, None)
    if not holds(assume, env):
      raise Inconclusive('assumption witness does not satisfy assumptions')
    envs.append(env)
  tries = 0
  while len(envs) < ob.samples + (1 if assume else 0) and tries < 200:
    tries += 1
    env = T.sample_env(rng, 'hi' if tries == 1 else None)
    if not assume or holds(assume, env):
      envs.append(env)
  # encoding validation: symbolic outputs evaluated == real outputs
  early = None
  for env in envs:
    e = dict(env)
    live = [p for p in paths if all(smt.f_eval(f, e) for f in p[0])]
    if len(live) != 1:
      raise Inconclusive(f'{len(live)} paths live for one input')
    bad, cins, outs = check_concrete(ob, e, ins)
    souts = live[0][1]
    if live[0][2] is None and ob.validate:
      if len(souts) != len(outs):
        raise Inconclusive('encoding validation: output arity differs')
      for so, co in zip(souts, outs):
        sx, cx = so.x, co.x
        if sx.shape != cx.shape:
          raise Inconclusive('encoding validation: shapes differ')
        for a, b in zip(sx.ravel(), cx.ravel()):
          if T.value(a, e) != int(b):
            raise Inconclusive(
                f'encoding validation: {T.value(a, e)} != {int(b)}')
    res.validated += 1
    if bad and early is None:
      early = (bad, cins, outs)
    if res.witness is None:
      res.witness = [[str(v) for v in a.r.ravel()[:4]] for a in cins]
  # the goals
  for pc, outs, exc, _, prims, side in paths:
    for k, v in prims.items():
      res.prims[k] = res.prims.get(k, 0) + v
    if any(f.op == 'false' for f in pc):
      continue
    gs = goals_of(ob, ins, outs, exc) + list(side)
    res.goals += len(gs)
    todo = []
    for l, f in gs:
      if f.op == 'true':
        res.trivial += 1
      todo.append((l, f))
    base = assume + pc + T.CTX.facts
    if ob.lemmas is not None and exc is None:
      # helpers for the solver: proven or else left out
      for f in ob.lemmas(ins, outs):
        if f.op == 'true':
          continue
        txt, _, _ = smt.build(base + [smt.Not(f)])
        r, _ = smt.run_solver(txt, [], ob.timeout)
        if r == 'unsat':
          base = base + [f]
    for i in range(0, max(1, len(todo)), ob.chunk):
      part = todo[i:i + ob.chunk]
      bad = prove_chunk(ob, res, base, part, ins, rng, cross)
      if bad:
        return
  if early is not None and res.status == 'ok':
    _set_violation(res, *early, 'concrete run; the encoding missed it')


def solve(fs, ob, nl=False, timeout=None, solver='z3'):
  txt, inp, em = smt.build(fs, nonlinear=nl)
  r, env = smt.run_solver(txt, inp, timeout or ob.timeout, solver)
  return r, env


def prove_chunk(ob, res, base, part, ins, rng, cross):
  """True when the obligation is settled as violated."""
  neg = smt.Or(*[smt.Not(f) for _, f in part])
  fs = base + [neg]
  idents, size = [], 0
  for _, f in part:
    if f.op == 'true' and f.args:
      size += len(f.args[0]) + len(f.args[1])
      if size < 6000:
        idents.append(f)
  txt, inp, em = smt.build(fs, nonlinear=False, idents=idents)
  r, env = smt.run_solver(txt, inp, ob.timeout)
  if r == 'unsat':
    if cross:
      r2, _ = smt.run_solver(txt, [], ob.timeout, 'cvc5')
      if r2 == 'sat':
        raise Inconclusive('solvers disagree')
      if r2 == 'unsat':
        res.crosschecked += 1
    return False
  cands = []
  if r == 'sat':
    cands.append(_fill_env(env, None))
    cands.append(_fill_env(env, rng))
  if _try(ob, res, base, part, ins, cands, 'solver model (linear query)'):
    return True
  if em.abstracted or r != 'sat':
    # decide precisely: products spelled out
    r2, env2 = solve(fs, ob, nl=True)
    if r2 == 'unsat':
      return False
    if r2 == 'sat':
      if _try(ob, res, base, part, ins, [_fill_env(env2, None)],
              'solver model (nonlinear query)'):
        return True
      raise Inconclusive(
          f'counterexample did not reproduce on the real code: '
          f'{[l for l, _ in part][:4]}')
    # cvc5 as a second opinion
    r3, env3 = solve(fs, ob, nl=True, solver='cvc5')
    if r3 == 'unsat':
      return False
    if r3 == 'sat' and _try(ob, res, base, part, ins, [_fill_env(env3, None)],
                            'solver model (cvc5)'):
      return True
  # fix most inputs, let the solver find the rest
  cands = []
  for k in range(60):
    e = T.sample_env(rng)
    if holds(base, e):
      cands.append(e)
  if _try(ob, res, base, part, ins, cands, 'instantiation of the relaxed '
          'counterexample'):
    return True
  if len(part) > 1:
    for g in part:
      if prove_chunk(ob, res, base, [g], ins, rng, cross):
        return True
    return False
  raise Inconclusive(f'goal {part[0][0]}: solver answered {r}')


def _try(ob, res, base, part, ins, cands, how):
  tried = 0
  for env in cands:
    e = dict(env)
    if not holds(base, e):
      continue
    if all(smt.f_eval(f, e) for _, f in part):
      continue
    tried += 1
    bad, cins, outs = check_concrete(ob, e, ins)
    if bad:
      _set_violation(res, bad, cins, outs, how)
      return True
    if tried >= 3:
      raise Inconclusive('counterexample of the encoding does not reproduce '
                         f'on the real code ({how}; {part[0][0]})')
  return False
