"""Formulas over terms, SMT-LIB emission, and solver driving."""

import os
import subprocess
import time

from jv import terms as T
from jv.terms import Sym, ONE

STATS = {
    'queries': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'solver_s': 0.0,
    'cross_checked': 0, 'max_query_s': 0.0, 'goals': 0, 'goals_trivial': 0,
}


class F:
  """Formula: op in eq0, ge0, cong, and, or, not, true, false, bool."""
  __slots__ = ('op', 'args')

  def __init__(self, op, *args):
    self.op, self.args = op, args


TRUE, FALSE = F('true'), F('false')


def _const(p):
  if not p:
    return 0
  if len(p) == 1 and ONE in p:
    return p[ONE]
  return None


def Eq(a, b=0):
  p = T.p_add(T.poly(a), T.poly(b), -1)
  c = _const(p)
  if c is not None:
    return F('true', T.poly(a), T.poly(b), 0) if c == 0 else FALSE
  return F('eq0', p)


def Ge(a, b=0):
  p = T.p_add(T.poly(a), T.poly(b), -1)
  c = _const(p)
  if c is not None:
    return TRUE if c >= 0 else FALSE
  # decided by the intervals alone?
  if T.lo_(a) >= T.hi_(b):
    return TRUE
  return F('ge0', p)


def Le(a, b):
  return Ge(b, a)


def Lt(a, b):
  return Ge(b, T.add(a, 1))


def raw(x):
  """Polynomial of a term regardless of exactness (for congruences)."""
  if isinstance(x, Sym):
    return x.p
  x = int(x)
  return {ONE: x} if x else {}


def Cong(a, b, m):
  """a == b (mod m). Terms only known mod 2**w may be used if m | 2**w."""
  for x in (a, b):
    if isinstance(x, Sym) and x.m is not None and (1 << x.m) % m:
      raise T.Unsupported('congruence modulus does not divide wrap modulus')
  p = T.p_mod(T.p_add(raw(a), raw(b), -1), m)
  c = _const(p)
  if c is not None:
    return F('true', raw(a), raw(b), m) if c % m == 0 else FALSE
  return F('cong', p, m)


def In(a, lo, hi):
  return And(Ge(a, lo), Le(a, hi))


def And(*fs):
  out = []
  for f in fs:
    if f.op == 'false':
      return FALSE
    if f.op == 'true':
      continue
    if f.op == 'and':
      out.extend(f.args)
    else:
      out.append(f)
  if not out:
    return TRUE
  return out[0] if len(out) == 1 else F('and', *out)


def Or(*fs):
  out = []
  for f in fs:
    if f.op == 'true':
      return TRUE
    if f.op == 'false':
      continue
    if f.op == 'or':
      out.extend(f.args)
    else:
      out.append(f)
  if not out:
    return FALSE
  return out[0] if len(out) == 1 else F('or', *out)


def Not(f):
  if f.op == 'true':
    return FALSE
  if f.op == 'false':
    return TRUE
  if f.op == 'not':
    return f.args[0]
  return F('not', f)


def Implies(a, b):
  return Or(Not(a), b)


def B(sym):
  """Formula from a 0/1 term."""
  if not isinstance(sym, Sym):
    return TRUE if int(sym) else FALSE
  return Ge(sym, 1)


def f_polys(f):
  if f.op == 'true':
    return []
  if f.op in ('eq0', 'ge0'):
    return [f.args[0]]
  if f.op == 'cong':
    return [f.args[0]]
  r = []
  for a in f.args:
    if isinstance(a, F):
      r.extend(f_polys(a))
  return r


def f_eval(f, env):
  op = f.op
  if op == 'true':
    return True
  if op == 'false':
    return False
  if op == 'eq0':
    return T.evaluate(f.args[0], env) == 0
  if op == 'ge0':
    return T.evaluate(f.args[0], env) >= 0
  if op == 'cong':
    return T.evaluate(f.args[0], env) % f.args[1] == 0
  if op == 'and':
    return all(f_eval(g, env) for g in f.args)
  if op == 'or':
    return any(f_eval(g, env) for g in f.args)
  if op == 'not':
    return not f_eval(f.args[0], env)
  raise ValueError(op)


class Emitter:

  def __init__(self, nonlinear=False):
    self.nl = nonlinear
    self.decl = []
    self.asserts = []
    self.prod = {}
    self.fresh = 0
    self.abstracted = False

  def n(self, c):
    return str(c) if c >= 0 else f'(- {-c})'

  def av(self, i):
    return f'x{i}'

  def intmono(self, ints):
    if len(ints) == 1:
      return self.av(ints[0])
    if self.nl:
      return '(* ' + ' '.join(self.av(i) for i in ints) + ')'
    v = self.prod.get(ints)
    if v is None:
      v = 'm' + '_'.join(map(str, ints))
      self.prod[ints] = v
      self.abstracted = True
      lo, hi = T.m_range(ints)
      self.decl.append(f'(declare-const {v} Int)')
      self.asserts.append(
          f'(assert (and (<= {self.n(lo)} {v}) (<= {v} {self.n(hi)})))')
    return v

  def mono(self, m, c):
    bools = T.CTX.bools
    bs = [i for i in m if i in bools]
    ints = tuple(i for i in m if i not in bools)
    if not ints:
      x = self.n(c)
    elif c == 1:
      x = self.intmono(ints)
    else:
      x = f'(* {self.n(c)} {self.intmono(ints)})'
    if bs:
      cnd = (self.av(bs[0]) if len(bs) == 1
             else '(and ' + ' '.join(self.av(i) for i in bs) + ')')
      x = f'(ite {cnd} {x} 0)'
    return x

  def poly(self, p):
    if not p:
      return '0'
    parts = [self.mono(m, c) for m, c in p.items()]
    return parts[0] if len(parts) == 1 else '(+ ' + ' '.join(parts) + ')'

  def atom_decl(self, i):
    t = 'Bool' if i in T.CTX.bools else 'Int'
    self.decl.append(f'(declare-const {self.av(i)} {t})')

  def atom(self, i):
    a = T.CTX.atoms[i]
    x = self.av(i)
    isb = i in T.CTX.bools
    if isb:
      self.decl.append(f'(declare-const {x} Bool)')
    else:
      self.decl.append(f'(declare-const {x} Int)')
      self.asserts.append(
          f'(assert (and (<= {self.n(a.lo)} {x}) (<= {x} {self.n(a.hi)})))')
    val = f'(ite {x} 1 0)' if isb else x
    if a.kind == 'div':
      p, c = a.defn
      s = self.poly(T.p_add(p, {(i,): -c}))
      self.asserts.append(
          f'(assert (let ((r {s})) (and (<= 0 r) (< r {c}))))')
    elif a.kind == 'sdiv':
      p, d = a.defn
      s = self.poly(T.p_add(p, T.p_mul(d, {(i,): 1}), -1))
      self.asserts.append(
          f'(assert (let ((r {s})) (and (<= 0 r) (< r {self.poly(d)}))))')
    elif a.kind == 'ge':
      self.asserts.append(f'(assert (= {x} (>= {self.poly(a.defn)} 0)))')
    elif a.kind == 'eq':
      self.asserts.append(f'(assert (= {x} (= {self.poly(a.defn)} 0)))')
    elif a.kind == 'name':
      self.asserts.append(f'(assert (= {val} {self.poly(a.defn)}))')

  def identity(self, f):
    """Negation of a goal whose two sides have the same normal form."""
    a, b, m = f.args
    d = T.p_add(a, b, -1)
    r = self.poly(b)
    if d:
      r = f'(+ {r} (* {m} {self.poly({k: c // m for k, c in d.items()})}))'
    return f'(not (= {self.poly(a)} {r}))'

  def formula(self, f, pos=True):
    op = f.op
    if op == 'true':
      return 'true' if pos else 'false'
    if op == 'false':
      return 'false' if pos else 'true'
    if op == 'not':
      return self.formula(f.args[0], not pos)
    if op in ('and', 'or'):
      o = op if pos else ('or' if op == 'and' else 'and')
      return f'({o} ' + ' '.join(self.formula(g, pos) for g in f.args) + ')'
    if op == 'eq0':
      s = f'(= {self.poly(f.args[0])} 0)'
      return s if pos else f'(not {s})'
    if op == 'ge0':
      if pos:
        return f'(>= {self.poly(f.args[0])} 0)'
      return f'(< {self.poly(f.args[0])} 0)'
    if op == 'cong':
      p, m = f.args
      self.fresh += 1
      t, r = f't_{self.fresh}', f'r_{self.fresh}'
      self.decl.append(f'(declare-const {t} Int)')
      if pos:
        return f'(= {self.poly(p)} (* {m} {t}))'
      self.decl.append(f'(declare-const {r} Int)')
      return (f'(and (= {self.poly(p)} (+ (* {m} {t}) {r})) (<= 1 {r})'
              f' (< {r} {m}))')
    raise ValueError(op)


def build(formulas, nonlinear=False, idents=()):
  """SMT-LIB text asserting all formulas, and the input atoms it mentions.

  idents: goals already equal in normal form; their negations join the last
  formula (a disjunction of negated goals).
  """
  em = Emitter(nonlinear)
  polys = []
  for f in formulas:
    polys.extend(f_polys(f))
  ids = sorted(T.closure(polys))
  extra = set()
  for f in idents:
    for p in f.args[:2]:
      extra |= T.p_atoms(p)
  for i in ids:
    em.atom(i)
  for i in sorted(extra - set(ids)):
    em.atom_decl(i)
  body = [f'(assert {em.formula(f)})' for f in formulas]
  if idents:
    last = em.formula(formulas[-1])
    body[-1] = ('(assert (or ' + last + ' ' +
                ' '.join(em.identity(f) for f in idents) + '))')
  ins = [i for i in ids if T.CTX.atoms[i].kind == 'in']
  txt = ['(set-option :produce-models true)', '(set-logic ALL)']
  txt += em.decl + em.asserts + body + ['(check-sat)']
  return '\n'.join(txt), ins, em


def _parse_values(out, ins):
  env = {}
  toks = out.replace('(', ' ( ').replace(')', ' ) ').split()
  k = 0
  while k < len(toks):
    t = toks[k]
    if t.startswith('x') and t[1:].isdigit():
      i = int(t[1:])
      v = toks[k + 1]
      if v == '(':
        if toks[k + 2] == '-':
          env[i] = -int(toks[k + 3])
        k += 2
      elif v == 'true':
        env[i] = 1
      elif v == 'false':
        env[i] = 0
      else:
        try:
          env[i] = int(v)
        except ValueError:
          pass
      k += 1
    k += 1
  return env


def run_solver(txt, ins, timeout, solver='z3'):
  full = txt + '\n'
  if ins:
    full += '(get-value (' + ' '.join(f'x{i}' for i in ins) + '))\n'
  t0 = time.time()
  if solver == 'z3':
    cmd = ['z3-new', '-in', f'-T:{int(timeout)+1}']
  elif solver == 'z3old':
    cmd = ['z3', '-in', f'-T:{int(timeout)+1}']
  else:
    cmd = ['cvc5', '--lang=smt2', f'--tlimit={int(timeout*1000)}', '-q']
  try:
    r = subprocess.run(cmd, input=full, capture_output=True, text=True,
                       timeout=timeout + 10)
    out = r.stdout
  except subprocess.TimeoutExpired:
    out = 'timeout'
  dt = time.time() - t0
  STATS['queries'] += 1
  STATS['solver_s'] += dt
  STATS['max_query_s'] = max(STATS['max_query_s'], dt)
  first = out.strip().split('\n', 1)[0].strip() if out.strip() else 'unknown'
  if first == 'unsat':
    # the get-value after unsat yields one error line; any other is a problem
    STATS['unsat'] += 1
    return 'unsat', None
  if first == 'sat':
    STATS['sat'] += 1
    return 'sat', _parse_values(out.split('\n', 1)[1] if '\n' in out else '',
                                ins)
  STATS['unknown'] += 1
  return 'unknown', out[:300]
