"""What the columns of a query are: algebra over aggregates of the base table.

Every column of a relation becomes a term. Terms are compared through a map to
a prime field under which two terms are the same element exactly when (up to
hash collisions) they are the same rational expression of the same atoms. An
atom is anything that is not arithmetic; an aggregate is described by its
function, its argument, the conditions its rows satisfy, the columns it is
grouped by and the grouping columns pinned to a value on the way.

Terms:
  ('c', Fraction) ('s', text) ('r', column of the table) ('k', grouping column)
  ('+'|'*'|'/'|'pow', a, b) ('neg'|'sqrt', a)
  ('filt', conditions, a): a row level value, NULL unless the conditions hold
  ('agg', function, a, conditions, by, rel, pins, extra)
  ('win', function, a, rel, partition, order, frame, pins)
  ('fn', name, args) ('if', condition, a, b) ('cond', condition)
Conditions:
  ('mark', text) ('cmp', op, a, b) ('and'|'or', frozenset) ('not', c)
  ('is', a)
"""
import hashlib
from fractions import Fraction

from . import sqlast as sa
from .sqlflow import AGG

P = 2 ** 61 - 1
EMPTY = frozenset()
BASE = 'T'
OPAQUE = 'not modelled'
PARTIAL = {('SUM', 'SUM'): 'SUM', ('SUM', 'COUNT'): 'COUNT',
           ('MAX', 'MAX'): 'MAX', ('MIN', 'MIN'): 'MIN'}


class Undecided(Exception):
  pass


class Unresolved(Undecided):
  """A name that nothing in scope has."""


def hashed(desc):
  return int.from_bytes(hashlib.sha256(repr(desc).encode()).digest()[:16],
                        'big') % P


# ---------------------------------------------------------------- building
def num(x):
  return ('c', Fraction(x))


def isrow(t):
  k = t[0]
  if k in ('r', 'filt'):
    return True
  if k in ('agg', 'win', 'k', 'c', 's'):
    return False
  return any(isrow(x) for x in subterms(t))


def subterms(t):
  k = t[0]
  if k in ('+', '*', '/', 'pow'):
    return t[1:3]
  if k in ('neg', 'sqrt'):
    return t[1:2]
  if k == 'filt':
    return t[2:3]
  if k in ('agg', 'win'):
    return t[2:3]
  if k == 'fn':
    return t[2]
  if k == 'if':
    return tuple(cterms(t[1])) + t[2:4]
  if k == 'cond':
    return tuple(cterms(t[1]))
  return ()


def cterms(c):
  if c[0] == 'cmp':
    yield from c[2:4]
  elif c[0] == 'is':
    yield c[1]
  elif c[0] in ('and', 'or'):
    for x in c[1]:
      yield from cterms(x)
  elif c[0] == 'not':
    yield from cterms(c[1])


def op(k, *args):
  """Arithmetic; conditions on the rows move outwards."""
  conds = EMPTY
  out = []
  for a in args:
    if a[0] == 'filt':
      conds |= a[1]
      a = a[2]
    out.append(a)
  if k in ('fn',):
    raise AssertionError
  t = (k,) + tuple(out)
  return ('filt', conds, t) if conds else t


def fn(name, *args):
  conds = EMPTY
  out = []
  for a in args:
    if a[0] == 'filt' and name not in ('COALESCE', 'IF'):
      conds |= a[1]
      a = a[2]
    out.append(a)
  t = ('fn', name, tuple(out))
  return ('filt', conds, t) if conds else t


def agg(name, arg, conds, by, rel, extra=()):
  if arg[0] == 'filt':
    conds = conds | arg[1]
    arg = arg[2]
  if name != 'ARRAY_AGG' or 'NULLS IGNORE' in extra:
    conds = frozenset(c for c in conds if c != ('not', ('is', (
        'fn', 'IS_NULL', (arg,)))))
  if name == 'AVG' and not extra:
    return ('/', agg('SUM', arg, conds, by, rel), agg('COUNT', arg, conds, by,
                                                      rel))
  if arg[0] == 'agg' and not conds and not extra and not arg[7] and (
      not arg[6] and (name, arg[1]) in PARTIAL
      and rel == ('groups', arg[4], EMPTY)):
    return ('agg', PARTIAL[name, arg[1]], arg[2], arg[3], frozenset(by),
            arg[5], EMPTY, ())
  return ('agg', name, arg, frozenset(conds), frozenset(by), rel, EMPTY,
          tuple(extra))


SPREADS = {'VAR_POP', 'VAR_SAMP', 'STDDEV_POP', 'STDDEV_SAMP', 'COVAR_POP',
           'COVAR_SAMP', 'CORR'}


def by_sums(name, arg, a):
  """A moment in terms of sums and counts; a(name, arg) aggregates."""
  x, y = arg[2] if arg[:2] == ('fn', 'PAIR') else (arg, arg)
  n = a('COUNT', op('*', x, y))

  def cov(p, q):
    m = op('*', op('/', a('SUM', p), n), op('/', a('SUM', q), n))
    return op('+', op('/', a('SUM', op('*', p, q)), n), op('neg', m))
  if name == 'CORR':
    return op('/', op('/', cov(x, y), op('sqrt', cov(x, x))),
              op('sqrt', cov(y, y)))
  t = cov(x, y)
  if name.endswith('SAMP'):
    t = op('/', t, op('+', num(1), op('neg', op('/', num(1), n))))
  return op('sqrt', t) if name.startswith('STDDEV') else t


def loose(t):
  """Moments written as sums, all counts of the same rows alike."""
  k = t[0]
  if k == 'agg':
    if t[1] in SPREADS and not t[7]:
      return loose(by_sums(t[1], t[2], lambda f, x: (
          'agg', f, x) + t[3:]))
    if t[1] == 'COUNT' and not t[7]:
      return t[:2] + (('s', '*'),) + t[3:]
    return t[:2] + (loose(t[2]),) + t[3:]
  if k in ('+', '*', '/', 'pow'):
    return (k, loose(t[1]), loose(t[2]))
  if k in ('neg', 'sqrt'):
    return (k, loose(t[1]))
  if k == 'fn':
    return ('fn', t[1], tuple(loose(x) for x in t[2]))
  if k == 'if':
    return t[:2] + (loose(t[2]), loose(t[3]))
  return t


def equal(a, b):
  """Equal terms. Without NULLs if one has moments."""
  if norm(a) == norm(b):
    return True
  if any(x[0] == 'agg' and x[1] in SPREADS for t in (a, b) for x in walk(t)):
    return norm(loose(a)) == norm(loose(b))
  return False


def groups(keys, cons=EMPTY):
  return ('groups', frozenset(keys), frozenset(cons))


def pin(t, key, value):
  """The value of a term at one value of a grouping column."""
  k = t[0]
  if k == 'agg':
    if key in t[4]:
      return t[:4] + (t[4] - {key}, t[5], t[6] | {(key, norm(value))}, t[7])
    return t
  if k == 'win':
    if key in t[3][1]:
      return t[:7] + (t[7] | {(key, norm(value))},)
    return t
  if k == 'k':
    return value if t[1] == key else t
  if k in ('+', '*', '/', 'pow'):
    return (k, pin(t[1], key, value), pin(t[2], key, value))
  if k in ('neg', 'sqrt'):
    return (k, pin(t[1], key, value))
  if k == 'fn':
    return ('fn', t[1], tuple(pin(x, key, value) for x in t[2]))
  if k == 'if':
    return ('if', cpin(t[1], key, value), pin(t[2], key, value),
            pin(t[3], key, value))
  if k == 'cond':
    return ('cond', cpin(t[1], key, value))
  return t


def cpin(c, key, value):
  if c[0] == 'cmp':
    return c[:2] + (pin(c[2], key, value), pin(c[3], key, value))
  if c[0] == 'is':
    return ('is', pin(c[1], key, value))
  if c[0] in ('and', 'or'):
    return (c[0], frozenset(cpin(x, key, value) for x in c[1]))
  if c[0] == 'not':
    return ('not', cpin(c[1], key, value))
  return c


# -------------------------------------------------------------- conditions
def conj(*cs):
  out = set()
  for c in cs:
    out |= c[1] if c[0] == 'and' else {c}
  return next(iter(out)) if len(out) == 1 else ('and', frozenset(out))


def disj(*cs):
  out = set()
  for c in cs:
    out |= c[1] if c[0] == 'or' else {c}
  return next(iter(out)) if len(out) == 1 else ('or', frozenset(out))


NEG = {'=': '!=', '!=': '=', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}


def negate(c):
  if c[0] == 'cmp':
    return ('cmp', NEG[c[1]]) + c[2:]
  if c[0] == 'not':
    return c[1]
  if c[0] in ('and', 'or'):
    return (disj if c[0] == 'and' else conj)(*[negate(x) for x in c[1]])
  return ('not', c)


def flat(c):
  return c[1] if c[0] == 'and' else frozenset([c])


def cnorm(c):
  """A canonical description of a condition."""
  if c[0] == 'mark':
    return c
  if c[0] == 'cmp':
    o, a, b = c[1], norm(c[2]), norm(c[3])
    if o in ('>', '>='):
      o, a, b = {'>': '<', '>=': '<='}[o], b, a
    if o in ('=', '!=') and b < a:
      a, b = b, a
    return ('cmp', o, a, b)
  if c[0] == 'is':
    return ('is', norm(c[1]))
  if c[0] == 'not':
    return ('not', cnorm(c[1]))
  return (c[0],) + tuple(sorted((cnorm(x) for x in c[1]), key=repr))


def conds_norm(cs):
  return tuple(sorted({cnorm(c) for c in cs}, key=repr))


def rel_norm(r):
  if r == BASE:
    return r
  return ('groups', tuple(sorted(r[1])), conds_norm(r[2]))


# -------------------------------------------------------------- comparison
_MEMO = {}


def norm(t):
  """The field element of a term."""
  r = _MEMO.get(id(t))
  if r is not None and r[0] is t:
    return r[1]
  v = _norm(t)
  if len(_MEMO) > 200000:
    _MEMO.clear()
  _MEMO[id(t)] = (t, v)
  return v


def inv(x):
  if x == 0:
    raise Undecided('division by 0')
  return pow(x, P - 2, P)


def _norm(t):
  k = t[0]
  if k == 'c':
    return t[1].numerator % P * pow(t[1].denominator, P - 2, P) % P
  if k == '+':
    return (norm(t[1]) + norm(t[2])) % P
  if k == 'neg':
    return -norm(t[1]) % P
  if k == '*':
    for a, b in ((t[1], t[2]),):
      if a[0] == 'sqrt' and b[0] == 'sqrt' and norm(a[1]) == norm(b[1]):
        return norm(a[1])
    return norm(t[1]) * norm(t[2]) % P
  if k == '/':
    return norm(t[1]) * inv(norm(t[2])) % P
  if k == 'sqrt':
    # multiplicative: sqrt(a) sqrt(b) = sqrt(ab)
    return pow(norm(t[1]), (P + 1) // 4, P)
  if k == 'pow':
    if t[2][0] == 'c':
      n = t[2][1]
      if n == Fraction(1, 2):
        return norm(('sqrt', t[1]))
      if n.denominator == 1 and abs(n) < 64:
        n = int(n)
        if t[1][0] == 'sqrt' and n % 2 == 0:
          return norm(('pow', t[1][1], num(n // 2)))
        x = norm(t[1])
        return pow(x, n, P) if n >= 0 else inv(pow(x, -n, P))
    return hashed(('pow', norm(t[1]), norm(t[2])))
  if k == 'filt':
    return hashed(('filt', conds_norm(t[1]), norm(t[2])))
  if k == 'agg':
    return hashed(('agg', t[1], norm(t[2]), conds_norm(t[3]),
                   tuple(sorted(t[4])), rel_norm(t[5]), tuple(sorted(t[6])),
                   tuple(norm(x) if isinstance(x, tuple) and x and isinstance(
                       x[0], str) and x[0] in KINDS else x for x in t[7])))
  if k == 'win':
    return hashed(('win', t[1], norm(t[2]), rel_norm(t[3]),
                   tuple(sorted(t[4])), tuple((norm(x), d) for x, d in t[5]),
                   t[6], tuple(sorted(t[7]))))
  if k == 'fn':
    return hashed(('fn', t[1]) + tuple(norm(x) for x in t[2]))
  if k == 'if':
    return hashed(('if', cnorm(t[1]), norm(t[2]), norm(t[3])))
  if k == 'cond':
    return hashed(('cond', cnorm(t[1])))
  return hashed(t)


KINDS = {'c', 's', 'r', 'k', '+', '*', '/', 'pow', 'neg', 'sqrt', 'filt',
         'agg', 'win', 'fn', 'if', 'cond'}


def show(t, depth=0):
  """A short text of a term for reports."""
  if not isinstance(t, tuple):
    return str(t)
  if depth > 9:
    return '...'
  k = t[0]
  s = lambda x: show(x, depth + 1)
  if k in ('c', 's', 'r', 'k'):
    return str(t[1])
  if k in ('+', '*', '/'):
    return '(%s %s %s)' % (s(t[1]), k, s(t[2]))
  if k in ('neg', 'sqrt'):
    return '%s(%s)' % (k, s(t[1]))
  if k == 'pow':
    return '%s^%s' % (s(t[1]), s(t[2]))
  if k == 'filt':
    return '[%s if %s]' % (s(t[2]), conds_show(t[1]))
  if k == 'agg':
    x = '%s(%s%s' % (t[1], s(t[2]), ''.join(' ' + show(e) for e in t[7]))
    if t[3]:
      x += ' where ' + conds_show(t[3])
    x += ' by ' + ','.join(sorted(t[4]))
    if t[6]:
      x += ' at base of ' + ','.join(sorted(q for q, _ in t[6]))
    if t[5] != BASE:
      x += ' over groups of ' + ','.join(sorted(t[5][1]))
      if t[5][2]:
        x += ' with ' + conds_show(t[5][2])
    return x + ')'
  if k == 'win':
    return '%s(%s) over groups of %s partitioned by %s order %s %s' % (
        t[1], s(t[2]), ','.join(sorted(t[3][1])), ','.join(sorted(t[4])),
        ','.join('%s %s' % (s(x), d) for x, d in t[5]), t[6])
  if k == 'fn':
    return '%s(%s)' % (t[1], ', '.join(s(x) for x in t[2]))
  if k == 'if':
    return 'if(%s, %s, %s)' % (cshow(t[1]), s(t[2]), s(t[3]))
  if k == 'cond':
    return cshow(t[1])
  return str(t)


def cshow(c):
  if c[0] == 'mark':
    return c[1]
  if c[0] == 'cmp':
    return '%s%s%s' % (show(c[2], 6), c[1], show(c[3], 6))
  if c[0] == 'is':
    return show(c[1], 6)
  if c[0] == 'not':
    return 'not(%s)' % cshow(c[1])
  return '(%s)' % (' %s ' % c[0]).join(sorted(cshow(x) for x in c[1]))


def conds_show(cs):
  return ' and '.join(sorted(cshow(c) for c in cs))


# ------------------------------------------------------------------ queries
class Rel:

  def __init__(self, rows=False):
    self.rows = rows        # one row per row of the base table
    self.cols = {}          # lower name -> term
    self.order = []         # names in output order
    self.keys = EMPTY       # grouping columns that identify a row
    self.cons = EMPTY       # conditions on the rows
    self.open = rows
    self.unnest = None
    self.opaque = None      # why nothing is known about it

  def put(self, name, t):
    n = name.lower()
    if n not in self.cols:
      self.order.append(n)
    self.cols[n] = t

  def get(self, name):
    n = name.lower()
    if n in self.cols:
      return self.cols[n]
    if self.opaque:
      return ('fn', OPAQUE, ())
    if self.open:
      return ('r', n)
    return None

  def copy(self):
    r = Rel(self.rows)
    r.cols, r.order = dict(self.cols), list(self.order)
    r.keys, r.cons, r.open = self.keys, self.cons, self.open
    r.unnest, r.opaque = self.unnest, self.opaque
    return r


class Terms:
  """marks: names of boolean columns that stand for filters."""

  def __init__(self, table, marks=()):
    self.table = table
    self.marks = {m.lower() for m in marks}
    self.atoms = 0

  def run(self, q):
    return self.query(q, {}, None)

  # -------------------------------------------------------------- conditions
  def cond(self, e, sc):
    if e[0] == 'bin' and e[1] in ('AND', 'OR'):
      f = conj if e[1] == 'AND' else disj
      return f(self.cond(e[2], sc), self.cond(e[3], sc))
    if e[0] == 'un' and e[1] == 'NOT':
      return negate(self.cond(e[2], sc))
    if e[0] == 'col' and e[2].lower() in self.marks:
      return ('mark', e[2].lower())
    if e[0] == 'bin' and e[1] in ('=', '==', '!=', '<>', '<', '>', '<=', '>='):
      o = {'==': '=', '<>': '!='}.get(e[1], e[1])
      return ('cmp', o, self.expr(e[2], sc), self.expr(e[3], sc))
    if e[0] == 'bin' and e[1] not in ('+', '-', '*', '/'):
      return ('is', fn(e[1], self.expr(e[2], sc), self.expr(e[3], sc)))
    return ('is', self.expr(e, sc))

  # ------------------------------------------------------------- expressions
  def expr(self, e, sc):
    k = e[0]
    if k == 'num':
      t = e[1]
      if t.upper() == 'NULL':
        return ('s', 'NULL')
      try:
        return num(Fraction(int(t, 16)) if t.lower().startswith('0x') else
                   Fraction(t))
      except ValueError:
        return ('s', t.upper())
    if k == 'str':
      return ('s', strval(e[1]))
    if k == 'col':
      if e[1] is None and e[2].lower() in self.marks:
        return ('cond', ('mark', e[2].lower()))
      return self.column(e, sc)
    if k == 'un':
      if e[1] == '-':
        return op('neg', self.expr(e[2], sc))
      if e[1] == 'NOT':
        return ('cond', self.cond(e, sc))
      return fn(e[1], self.expr(e[2], sc))
    if k == 'bin':
      if e[1] in ('+', '*', '/'):
        return op(e[1], self.expr(e[2], sc), self.expr(e[3], sc))
      if e[1] == '-':
        return op('+', self.expr(e[2], sc), op('neg', self.expr(e[3], sc)))
      return ('cond', self.cond(e, sc))
    if k == 'case':
      out = self.expr(e[2], sc)
      for c, v in reversed(e[1]):
        out = self.choose(self.cond(c, sc), self.expr(v, sc), out)
      return out
    if k == 'list':
      return fn('LIST', *[self.expr(x, sc) for x in e[1]])
    if k == 'index':
      return fn('INDEX', self.expr(e[1], sc), self.expr(e[2], sc))
    if k == 'query':
      return self.scalar(e[1], sc)
    if k == 'fn':
      return self.call(e, sc)
    raise Undecided('expression %s' % sa.show(e))

  def scalar(self, q, sc):
    r = self.query(q, sc.env, sc)
    if len(r.cols) != 1:
      raise Undecided('scalar query')
    return fn('QUERY', next(iter(r.cols.values())))

  def choose(self, c, a, b):
    null = ('s', 'NULL')
    if b == null:
      # a value of a row where a filter holds
      if a[0] not in ('agg', 'win') and (isrow(a) or a[0] == 'c') and (
          all(isrow(x) or x[0] in ('c', 's') for x in cterms(c))):
        if a[0] == 'filt':
          return ('filt', a[1] | flat(c), a[2])
        return ('filt', flat(c), a)
      if c[0] == 'cmp' and c[1] == '!=' and guards(c, a):
        return a
    if a == null and c[0] == 'cmp' and c[1] == '=' and guards(c, b):
      return b
    return ('if', c, a, b)

  def call(self, e, sc):
    name, args, opts = e[1], e[2], e[3]
    if 'over' in opts:
      return self.window(e, sc)
    if name in AGG:
      return self.aggregate(e, sc)
    if name == 'IF' and len(args) == 3:
      return self.choose(self.cond(args[0], sc), self.expr(args[1], sc),
                         self.expr(args[2], sc))
    if name in ('CAST', 'SAFE_CAST'):
      return self.expr(args[0], sc)
    xs = [self.expr(x, sc) for x in args]
    base = name[5:] if name.startswith('SAFE.') else name
    if base in ('SAFE_DIVIDE', 'IEEE_DIVIDE', 'DIVIDE'):
      return op('/', *xs)
    if base in ('POWER', 'POW'):
      return op('pow', *xs)
    if base == 'SQRT':
      return op('sqrt', *xs)
    if base == 'NULLIF' and len(xs) == 2 and xs[1] == num(0):
      return xs[0]
    if base == 'IFNULL':
      base = 'COALESCE'
    return fn(base, *xs)

  def aggregate(self, e, sc):
    name, args, opts = e[1], e[2], e[3]
    extra = []
    if opts.get('distinct'):
      extra.append('DISTINCT')
    if opts.get('nulls'):
      extra.append('NULLS ' + str(opts['nulls']))
    for x, d in opts.get('order', ()):
      t = self.expr(x, sc)
      extra += ['ORDER', t[2] if t[0] == 'filt' else t, d]
    if 'limit' in opts:
      extra += ['LIMIT', self.expr(opts['limit'], sc)]
    conds = EMPTY
    if name == 'COUNTIF':
      c = self.cond(args[0], sc)
      return ('agg', 'COUNTIF', ('cond', c), sc.conds, sc.by, sc.rel, EMPTY, ())
    if args and args[0][0] == 'star':
      arg = ('s', '*')
    else:
      ts = [self.expr(x, sc) for x in args]
      out = []
      for t in ts:
        if t[0] == 'filt':
          conds |= t[1]
          t = t[2]
        out.append(t)
      arg = out[0]
      extra += out[1:]
      if name in ('CORR', 'COVAR_SAMP', 'COVAR_POP'):
        extra.pop()
        arg = ('fn', 'PAIR', tuple(sorted(out, key=norm)))
    self.atoms += 1
    return agg(name, arg, sc.conds | conds, sc.by, sc.rel, extra)

  def window(self, e, sc):
    name, args, opts = e[1], e[2], e[3]
    o = opts['over']
    part = set()
    for x in o['partition']:
      t = self.expr(x, sc)
      if t[0] != 'k':
        raise Undecided('window partitioned by %s' % sa.show(x))
      part.add(t[1])
    arg = self.expr(args[0], sc) if args and args[0][0] != 'star' else (
        's', '*')
    order = tuple((self.expr(x, sc), d) for x, d in o['order'])
    if sc.rows:
      raise Undecided('window over rows')
    self.atoms += 1
    return ('win', name, arg, groups(sc.keys, sc.cons), frozenset(part), order,
            o['frame'] or '', EMPTY)

  def column(self, e, sc):
    q, name = e[1], e[2].lower()
    hits = []
    for a, r in sc.srcs:
      if q is not None and a != q.lower():
        continue
      t = r.get(name)
      if t is not None and not (r.opaque and q is None):
        hits.append((name in r.cols, t))
    sure = [t for s, t in hits if s] or [t for _, t in hits]
    if not sure:
      if sc.outer is not None:
        return self.column(e, sc.outer)
      raise Unresolved('column %s' % sa.show(e))
    if len({norm(t) for t in sure}) > 1 and name not in sc.using:
      raise Undecided('ambiguous column %s' % name)
    return sure[0]

  # ---------------------------------------------------------------- queries
  def query(self, q, env, outer):
    env = dict(env)
    for name, sub in q.ctes:
      try:
        env[name.lower()] = self.query(sub, env, None)
      except Undecided as e:
        env[name.lower()] = Rel()
        env[name.lower()].opaque = e
    sc = Scope(env, outer)
    src = Rel()
    if q.source is not None:
      src = self.source(q.source, sc)
      if src.opaque:
        raise src.opaque
    sc.rows = src.rows
    sc.keys, sc.cons = src.keys, src.cons
    pins = {}
    if q.where is not None:
      c = self.cond(q.where, sc)
      if src.rows:
        sc.conds = flat(c)
      else:
        for x in flat(c):
          p = pinned(x)
          if p is not None:
            pins[p[0]] = p[1]
        sc.cons = sc.cons | flat(c)
    if src.rows:
      sc.conds = sc.conds | src.cons
    by_alias = {a.lower(): e for e, a in q.items if a is not None}
    grouped = bool(q.group) or any(has_agg(e) for e, _ in q.items)
    out = Rel()
    keyof = {}
    if grouped:
      if q.distinct or q.having is not None:
        raise Undecided('DISTINCT or HAVING of an aggregation')
      by = set()
      for g in q.group:
        if g[0] == 'num':
          g = q.items[int(g[1]) - 1][0]
        elif g[0] == 'col' and g[1] is None and g[2].lower() in by_alias and (
            self.try_column(g, sc) is None):
          g = by_alias[g[2].lower()]
        t = self.expr(g, sc)
        if t[0] in ('r', 'k'):
          key = t[1]
        elif src.rows:
          key = 'expr%d' % norm(t)
        else:
          raise Undecided('grouped by %s' % sa.show(g))
        keyof[norm(t)] = key
        by.add(key)
      sc.by = frozenset(by)
      sc.rel = BASE if src.rows else groups(sc.keys, sc.cons)
      out.keys = sc.by
      if not src.rows:
        out.cons = frozenset(c for c in sc.cons if keys_of(c) <= sc.by)
    else:
      out.rows = src.rows
      out.keys, out.cons = sc.keys, sc.cons
      if src.rows:
        out.cons = sc.conds
    for e, alias in q.items:
      if e[0] == 'star':
        for a, r in sc.srcs:
          if e[1] is not None and e[1].lower() != a:
            continue
          out.open = out.open or r.open
          for n in r.order:
            if n not in {x.lower() for x in e[2]} and n not in out.cols:
              out.put(n, r.cols[n])
        continue
      t = self.expr(e, sc)
      if grouped and norm(t) in keyof:
        t = ('k', keyof[norm(t)])
      elif grouped and src.rows and isrow(t):
        raise Undecided('ungrouped column %s' % sa.show(e))
      n = alias or (e[2] if e[0] == 'col' else '%d' % len(out.order))
      if n.lower() in out.cols:
        raise Undecided('two columns %s' % n)
      out.put(n, t)
    if q.distinct and not out.rows:
      ks = {t[1] for t in out.cols.values() if t[0] == 'k'}
      if len(ks) != len(out.cols):
        raise Undecided('DISTINCT')
      out.keys = frozenset(ks)
    elif q.distinct:
      ks = {}
      for n, t in out.cols.items():
        if t[0] != 'r':
          raise Undecided('DISTINCT')
        ks[n] = ('k', t[1])
      out.cols, out.keys = ks, frozenset(t[1] for t in ks.values())
      out.rows = out.open = False
      out.cons = EMPTY
    if not grouped and not out.rows:
      shown = {t[1] for t in out.cols.values() if t[0] == 'k'}
      for k, v in pins.items():
        if k in shown or k not in out.keys:
          continue
        out.cols = {n: pin(t, k, v) for n, t in out.cols.items()}
        out.keys = out.keys - {k}
        out.cons = frozenset(c for c in out.cons if k not in keys_of(c))
    return out

  def try_column(self, e, sc):
    try:
      return self.column(e, sc)
    except Undecided:
      return None

  # ---------------------------------------------------------------- sources
  def source(self, s, sc):
    if s.kind == 'join':
      left = self.source(s.left, sc)
      n1 = len(sc.srcs)
      right = self.source(s.right, sc)
      if left.unnest is not None or right.unnest is not None:
        raise Undecided('join with UNNEST')
      if left.rows or right.rows:
        raise Undecided('join of rows')
      if left.opaque:
        raise left.opaque
      if right.opaque:
        # one row at most per row on the left
        if s.how.upper() != 'LEFT' or {u.lower() for u in s.using} != {
            n for n, t in left.cols.items() if t[0] == 'k'}:
          raise right.opaque
        sc.using |= {u.lower() for u in s.using}
        return left
      on = set()
      for u in s.using:
        a = self.side(sc.srcs[:n1], u)
        b = self.side(sc.srcs[n1:], u)
        if a is None or b is None or a[0] != 'k' or a != b:
          raise Undecided('joined on %s' % u)
        on.add(a[1])
        sc.using.add(u.lower())
      if s.on is not None:
        for c in flat(self.cond(s.on, sc)):
          if c[0] == 'cmp' and c[1] == '=' and c[2] == c[3] and (
              c[2][0] == 'k'):
            on.add(c[2][1])
          elif c != ('is', ('s', 'TRUE')):
            raise Undecided('joined on a condition')
      if (left.keys & right.keys) - on:
        raise Undecided('joined across %s' % ','.join(
            sorted((left.keys & right.keys) - on)))
      out = Rel()
      out.keys = left.keys | right.keys
      out.cons = left.cons | right.cons
      return out
    if s.kind == 'table':
      key = s.name.lower()
      if key in sc.env:
        r = sc.env[key].copy()
      elif key == self.table.lower():
        r = Rel(True)
      else:
        raise Unresolved('table %s' % s.name)
      sc.srcs.append(((s.alias or s.name).lower(), r))
      return r
    if s.kind == 'sub':
      r = self.query(s.query, sc.env, None).copy()
      sc.srcs.append(((s.alias or 'sub%d' % len(sc.srcs)).lower(), r))
      return r
    if sc.outer is None:
      raise Undecided('UNNEST')
    r = Rel()
    r.unnest = self.expr(s.arg, sc.outer)
    r.keys = frozenset(['element of %d' % norm(r.unnest)])
    r.put(s.alias or 'x', ('k', next(iter(r.keys))))
    sc.srcs.append(((s.alias or 'x').lower() + '#', r))
    return r

  def side(self, srcs, name):
    for _, r in srcs:
      t = r.get(name)
      if t is not None:
        return t
    return None


class Scope:

  def __init__(self, env, outer):
    self.env = env
    self.outer = outer
    self.srcs = []
    self.using = set()
    self.conds = EMPTY
    self.by = EMPTY
    self.rel = BASE
    self.rows = False
    self.keys = EMPTY
    self.cons = EMPTY


def has_agg(e):
  return any(x[0] == 'fn' and x[1] in AGG and 'over' not in x[3]
             for x in sa.walk(e))


def guards(c, t):
  """Is the condition about the denominator of t?"""
  for d, z in ((c[2], c[3]), (c[3], c[2])):
    if z == num(0):
      n = norm(d)
      return any(x[0] == '/' and (norm(x[2]) == n or any(
          norm(y) == n for y in factors(x[2]))) for x in walk(t))
  return False


def factors(t):
  if t[0] == '*':
    yield from factors(t[1])
    yield from factors(t[2])
  else:
    yield t


def walk(t):
  yield t
  if t[0] in ('agg', 'win'):
    return
  for x in subterms(t):
    yield from walk(x)


def pinned(c):
  if c[0] == 'cmp' and c[1] == '=':
    for a, b in ((c[2], c[3]), (c[3], c[2])):
      if a[0] == 'k' and b[0] in ('s', 'c'):
        return a[1], b
  return None


def keys_of(c):
  out = set()
  for t in cterms(c):
    for x in walk(t):
      if x[0] == 'k':
        out.add(x[1])
      elif x[0] in ('agg', 'win'):
        out.add('?')
  return out


def strval(t):
  if t[:1] in 'rR':
    t = t[1:]
  return t[1:-1]
