"""Reads rendered SQL as a flow of data and records what is wrong with it.

Every relation maps its columns to the columns of the base table they are made
of, together with the conditions the rows were selected by before they were
aggregated. Nothing is executed: names are resolved, conditions and keys are
propagated through WITH clauses, subqueries and joins.
"""
from . import sqlast as sa

AGG = {'SUM', 'COUNT', 'AVG', 'MAX', 'MIN', 'COUNTIF', 'STDDEV_SAMP',
       'STDDEV_POP', 'STDDEV', 'VAR_SAMP', 'VAR_POP', 'VARIANCE', 'CORR',
       'COVAR_SAMP', 'COVAR_POP', 'APPROX_QUANTILES', 'ARRAY_AGG', 'ANY_VALUE',
       'STRING_AGG', 'APPROX_COUNT_DISTINCT', 'LOGICAL_AND', 'LOGICAL_OR',
       'MAX_BY', 'MIN_BY'}
EMPTY = frozenset()


class Col:
  """uses: {(base column, conditions)}; raw: a value of a row of the table."""

  def __init__(self, uses=EMPTY, raw=False, expr=None, agg=False, key=None):
    self.key = key         # the column to split by it is a copy of
    self.uses = frozenset(uses)
    self.raw = raw
    self.expr = expr
    self.agg = agg


class Rel:

  def __init__(self, cols=None, open_=False, conds=EMPTY, name=''):
    self.cols = cols if cols is not None else {}
    self.open = open_      # other columns exist: those of the base table
    self.conds = conds     # conditions on the rows of the base table
    self.name = name
    self.hidden = EMPTY
    self.rows = open_      # has one row per row of the base table
    self.grouped = None

  def get(self, name):
    n = name.lower()
    if n in self.cols:
      return self.cols[n]
    if self.open and n not in self.hidden:
      return Col([(name, self.conds)], True, key=n)
    return None

  def has_key(self, key):
    return self.open and key not in self.hidden or any(
        c.key == key for c in self.cols.values())

  def restrict(self, conds):
    out = Rel(dict(self.cols), self.open, self.conds | conds, self.name)
    out.hidden, out.rows, out.grouped = self.hidden, self.rows, self.grouped
    out.cols = {n: Col([(v, k | conds) for v, k in c.uses], True, c.expr,
                       key=c.key) if c.raw else c for n, c in self.cols.items()}
    return out


class Scope:
  """The sources of one SELECT."""

  def __init__(self):
    self.srcs = []     # (lower alias, Rel)
    self.using = set()
    self.ctes = {}


def conjuncts(e):
  if e is None:
    return []
  if e[0] == 'bin' and e[1] == 'AND':
    return conjuncts(e[2]) + conjuncts(e[3])
  return [e]


def atoms(e):
  """What a condition combines with AND, OR and NOT."""
  if e[0] == 'bin' and e[1] in ('AND', 'OR'):
    return atoms(e[2]) + atoms(e[3])
  if e[0] == 'un' and e[1] == 'NOT':
    return atoms(e[2])
  return [e]


def strip_cast(e):
  while e[0] == 'fn' and e[1] in ('CAST', 'SAFE_CAST'):
    e = e[2][0]
  return e


class Flow:
  """marks: names of conditions to follow; split: the columns to split by."""

  def __init__(self, table, marks=(), split=()):
    self.table = table
    self.marks = {m.lower() for m in marks}
    self.split = [s.lower() for s in split]
    self.errors = []       # (kind, message)
    self.counts = {}

  def err(self, kind, msg):
    if (kind, msg) not in self.errors:
      self.errors.append((kind, msg))

  def count(self, k, n=1):
    self.counts[k] = self.counts.get(k, 0) + n

  def run(self, q):
    return self.query(q, {})

  # ------------------------------------------------------------- conditions
  def cond(self, e, scope):
    """(conditions the rows satisfy, columns they are tested on)."""
    out, uses = set(), set()
    for c in conjuncts(e):
      if c[0] == 'col' and c[1] is None and c[2].lower() in self.marks:
        out.add(c[2].lower())
        continue
      if any(x[0] == 'col' and x[2].lower() in self.marks
             for x in atoms(c)):
        out.add('?' + sa.show(c))
        continue
      out.add('~' + sa.show(c))
      uses |= self.expr(c, scope).uses
    return frozenset(out), frozenset(uses)

  # ------------------------------------------------------------ expressions
  def column(self, e, scope):
    q, name = e[1], e[2]
    if q is not None:
      for a, r in scope.srcs:
        if a == q.lower():
          c = r.get(name)
          if c is None:
            self.err('name', '%s has no column %s' % (q, name))
            return Col()
          return c
      self.err('name', 'no source is called %s in %s.%s' % (q, q, name))
      return Col()
    hits = [(r, r.get(name)) for _, r in scope.srcs]
    hits = [(r, c) for r, c in hits if c is not None]
    if not hits:
      if name.lower() not in self.marks:
        self.err('name', 'no source has a column %s' % name)
      return Col()
    closed = [h for h in hits if name.lower() in h[0].cols]
    if len(closed) > 1 and name.lower() not in scope.using:
      self.err('ambiguous', 'column %s is in more than one source' % name)
    uses = frozenset().union(*[c.uses for _, c in (closed or hits[:1])])
    first = (closed or hits)[0][1]
    return Col(uses, first.raw, agg=first.agg, key=first.key)

  def expr(self, e, scope, inside=False):
    """What an expression is made of. inside: within an aggregate."""
    k = e[0]
    if k == 'col':
      if e[1] is None and e[2].lower() in self.marks:
        return Col()
      return self.column(e, scope)
    if k == 'query':
      r = self.query(e[1], dict(scope.ctes), scope)
      return Col(frozenset().union(*[c.uses for c in r.cols.values()])
                 if r.cols else EMPTY)
    if k == 'fn' and e[1] == 'IF' and len(e[2]) == 3:
      conds, cu = self.cond(e[2][0], scope)
      a, b = [self.expr(x, scope, inside) for x in e[2][1:]]
      real = frozenset(c for c in conds if c[:1] not in '~')
      au = frozenset((v, k2 | real) for v, k2 in a.uses) if a.raw or (
          inside) else a.uses
      if real and not (a.raw or inside):
        self.err('filter', 'a filter is applied to values already aggregated: '
                 '%s' % sa.show(e))
      return Col(au | b.uses | cu, a.raw or b.raw, agg=a.agg or b.agg)
    if k == 'fn' and e[1] in AGG and 'over' not in e[3]:
      if inside:
        self.err('aggregate', 'nested aggregates: %s' % sa.show(e))
      if e[1] == 'COUNTIF':
        conds, cu = self.cond(e[2][0], scope)
        return Col(cu, False, agg=True)
      us = [self.expr(x, scope, True) for x in sa.children(e)]
      return Col(frozenset().union(*[u.uses for u in us]) if us else EMPTY,
                 False, agg=True)
    if k == 'fn' and 'over' in e[3]:
      self.window(e, scope)
      us = [self.expr(x, scope) for x in sa.children(e)]
      return Col(frozenset().union(*[u.uses for u in us]) if us else EMPTY,
                 False, agg=any(u.agg for u in us))
    us = [self.expr(x, scope, inside) for x in sa.children(e)]
    key = us[0].key if k == 'fn' and e[1] == 'CAST' and us else None
    return Col(frozenset().union(*[u.uses for u in us]) if us else EMPTY,
               key=key, raw=any(u.raw for u in us), agg=any(u.agg for u in us))

  def window(self, e, scope):
    if not self.split or e[1] in ('RAND',):
      return
    parts = {self.expr(x, scope).key for x in e[3]['over']['partition']}
    self.count('windows')
    miss = [s for s in self.split if s not in parts]
    if miss:
      self.err('split', '%s runs across the values of %s' % (
          sa.show(e), ', '.join(miss)))

  def ungrouped(self, e, keys, scope):
    """Columns used outside aggregates that are not grouped by."""
    if sa.show(e).lower() in keys:
      return
    if e[0] == 'fn' and e[1] in AGG and 'over' not in e[3]:
      return
    if e[0] == 'col':
      if e[2].lower() not in keys and '%s.%s' % (
          (e[1] or '').lower(), e[2].lower()) not in keys:
        yield e
      return
    for c in sa.children(e):
      yield from self.ungrouped(c, keys, scope)

  # ---------------------------------------------------------------- queries
  def query(self, q, env, outer=None):
    env = dict(env)
    local = set()
    for name, sub in q.ctes:
      if name.lower() in local:
        self.err('name', 'two tables are called %s' % name)
      local.add(name.lower())
      r = self.query(sub, env)
      r.name = name
      env[name.lower()] = r
    self.count('queries')
    scope = Scope()
    scope.ctes = env
    base = EMPTY
    rows = False
    if q.source is not None:
      self.source(q.source, scope, env, outer)
    names = [a for a, _ in scope.srcs]
    for a in set(names):
      if names.count(a) > 1:
        self.err('name', 'two sources are called %s' % a)
    if q.where is not None:
      if any(x[0] == 'fn' and x[1] in AGG and 'over' not in x[3]
             for x in sa.walk(q.where)):
        self.err('aggregate', 'WHERE tests an aggregate: %s' % sa.show(
            q.where))
      conds, _ = self.cond(q.where, scope)
      real = frozenset(c for c in conds if c[:1] not in '~')
      if real and not any(r.rows or r.open for _, r in scope.srcs):
        self.err('filter', 'a filter is applied to rows already aggregated: '
                 '%s' % sa.show(q.where))
      scope.srcs = [(a, r.restrict(conds) if r.rows or r.open or any(
          c.raw for c in r.cols.values()) else r) for a, r in scope.srcs]
      self.not_null(q.where, scope)
    base = frozenset().union(*[r.conds for _, r in scope.srcs]) if (
        scope.srcs) else EMPTY
    rows = any(r.rows for _, r in scope.srcs)
    out = Rel(name='')
    items = []
    for e, alias in q.items:
      if e[0] == 'star':
        for a, r in scope.srcs:
          if e[1] is not None and e[1].lower() != a:
            continue
          hide = {x.lower() for x in e[2]}
          if r.open:
            out.open = True
            out.hidden = out.hidden | r.hidden | hide
          for n, c in r.cols.items():
            if n not in hide and n not in out.cols:
              out.cols[n] = c
        continue
      c = self.expr(e, scope)
      n = alias or (e[2] if e[0] == 'col' else None)
      items.append((e, n, c))
      if n is None:
        if len(q.items) > 1 and e[0] != 'num':
          self.err('name', 'a column has no name: %s' % sa.show(e))
        n = sa.show(e)
      if n.lower() in out.cols:
        self.err('alias', 'two columns are called %s' % n)
      out.cols[n.lower()] = Col(c.uses, c.raw, e, c.agg, c.key)
    self.grouping(q, items, out, scope)
    if not out.grouped and rows:
      out.rows = True
      out.conds = base
    for e, _ in q.order:
      if e[0] == 'col' and e[1] is None and e[2].lower() in out.cols:
        continue
      self.expr(e, scope)
    return out

  def not_null(self, where, scope):
    """x IS NOT NULL: only groups with rows that x was aggregated from."""
    for c in conjuncts(where):
      if c[:2] != ('un', 'NOT') or c[2][:2] != ('fn', 'IS_NULL') or (
          c[2][2][0][0] != 'col'):
        continue
      n = c[2][2][0][2].lower()
      for i, (a, r) in enumerate(scope.srcs):
        x = r.cols.get(n)
        if x is None or not x.uses or not x.agg:
          continue
        ks = [k for _, k in x.uses]
        common = frozenset.intersection(*ks)
        cols = {m: Col([(v, k | common) for v, k in y.uses], y.raw, y.expr,
                       y.agg, y.key) for m, y in r.cols.items()}
        out = Rel(cols, r.open, r.conds, r.name)
        out.hidden, out.rows, out.grouped = r.hidden, r.rows, r.grouped
        scope.srcs[i] = (a, out)

  def grouping(self, q, items, out, scope):
    agg = any(c.agg and self.has_agg(e) for e, _, c in items)
    if not agg and not q.group:
      return
    by_alias = {n.lower(): e for e, n, _ in items if n is not None}
    keys, names, splits = set(), set(), set()
    for g in q.group:
      if g[0] == 'col' and g[1] is None and g[2].lower() in by_alias:
        splits.add(out.cols[g[2].lower()].key)
      elif g[0] == 'num' and g[1].isdigit() and int(g[1]) <= len(items):
        splits.add(items[int(g[1]) - 1][2].key)
      else:
        splits.add(self.expr(g, scope).key)
      keys.add(sa.show(g).lower())
      if g[0] == 'col' and g[1] is None and g[2].lower() in by_alias:
        keys.add(sa.show(by_alias[g[2].lower()]).lower())
        names.add(g[2].lower())
      elif g[0] == 'col':
        keys.add(g[2].lower())
        names.add(g[2].lower())
      elif g[0] == 'num' and g[1].isdigit() and int(g[1]) <= len(items):
        e, n, _ = items[int(g[1]) - 1]
        keys.add(sa.show(e).lower())
        if n:
          names.add(n.lower())
    out.grouped = frozenset(names)
    self.count('aggregations')
    inner = all(getattr(r, 'unnest', False) for _, r in scope.srcs)
    for s in self.split:
      if s not in splits and not inner:
        self.err('split', 'aggregated without grouping by %s: %s' % (
            s, ' '.join(q.text.split())[:160]))
    for e, n, _ in items:
      if n is not None and n.lower() in keys:
        continue
      for c in self.ungrouped(e, keys, scope):
        self.err('group', 'column %s is neither aggregated nor grouped by' %
                 sa.show(c))

  def has_agg(self, e):
    return any(x[0] == 'fn' and x[1] in AGG and 'over' not in x[3]
               for x in sa.walk(e))

  # ---------------------------------------------------------------- sources
  def source(self, s, scope, env, outer=None):
    if s.kind == 'join':
      n0 = len(scope.srcs)
      self.source(s.left, scope, env, outer)
      n1 = len(scope.srcs)
      self.source(s.right, scope, env, outer)
      left, right = scope.srcs[n0:n1], scope.srcs[n1:]
      self.join(s, left, right, scope)
      return
    if s.kind == 'table':
      key = s.name.lower()
      if key in env:
        r = env[key]
        copy = Rel(dict(r.cols), r.open, r.conds, s.name)
        copy.hidden, copy.rows, copy.grouped = r.hidden, r.rows, r.grouped
        r = copy
      elif key == self.table.lower():
        r = Rel(open_=True, name=s.name)
        self.count('scans')
      else:
        self.err('name', 'there is no table %s' % s.name)
        r = Rel(name=s.name)
      scope.srcs.append(((s.alias or s.name).lower(), r))
    elif s.kind == 'sub':
      r = self.query(s.query, env)
      scope.srcs.append(((s.alias or 'sub%d' % len(scope.srcs)).lower(), r))
    else:
      r = Rel(name='unnest')
      inner = Scope()
      inner.srcs = scope.srcs or (outer.srcs if outer is not None else [])
      inner.using, inner.ctes = scope.using, env
      c = self.expr(s.arg, inner)
      if s.alias:
        r.cols[s.alias.lower()] = Col(c.uses)
      r.unnest = True
      scope.srcs.append(((s.alias or '').lower() + '#', r))

  def join(self, s, left, right, scope):
    un = lambda side: all(getattr(r, 'unnest', False) for _, r in side)
    if un(left) or un(right):
      return
    self.count('joins')
    keys = {u.lower() for u in s.using}
    for u in s.using:
      for side, word in ((left, 'left'), (right, 'right')):
        if not any(r.get(u) is not None for _, r in side):
          self.err('name', 'USING(%s): the %s side has no such column' % (
              u, word))
    scope.using |= keys
    eq = set()
    for u in keys:
      ks = [{r.get(u).key for _, r in side if r.get(u) is not None}
            for side in (left, right)]
      eq |= ks[0] & ks[1]
    for c in conjuncts(s.on):
      for x in sa.walk(c):
        if x[0] == 'col':
          self.column(x, scope)
      if c[0] == 'bin' and c[1] == '=':
        a, b = self.expr(c[2], scope).key, self.expr(c[3], scope).key
        if a is not None and a == b:
          eq.add(a)
    for k in self.split:
      has = [any(r.has_key(k) for _, r in side) for side in (left, right)]
      if all(has) and k not in eq:
        self.err('split', 'tables are joined across the values of %s' % k)
      elif not all(has):
        self.err('split', 'a joined table is not split by %s' % k)


def divisions(q, visit):
  """Calls visit(division, expressions known to be non-zero)."""
  def ex(e, nz):
    if e[0] == 'bin' and e[1] in ('/', '%'):
      visit(e, nz)
    if e[0] == 'fn' and e[1] == 'IF' and len(e[2]) == 3:
      c, a, b = e[2]
      ex(c, nz)
      ex(a, nz | nonzero(c, True))
      ex(b, nz | nonzero(c, False))
      return
    if e[0] == 'case':
      cur = nz
      for c, v in e[1]:
        ex(c, cur)
        ex(v, cur | nonzero(c, True))
        cur = cur | nonzero(c, False)
      ex(e[2], cur)
      return
    if e[0] == 'query':
      divisions(e[1], visit)
      return
    for c in sa.children(e):
      ex(c, nz)

  def src(s, nz):
    if s is None:
      return
    if s.kind == 'sub':
      divisions(s.query, visit)
    elif s.kind == 'join':
      src(s.left, nz)
      src(s.right, nz)
      if s.on is not None:
        ex(s.on, nz)
    elif s.kind == 'unnest':
      ex(s.arg, nz)

  for _, c in q.ctes:
    divisions(c, visit)
  src(q.source, frozenset())
  nz = frozenset()
  if q.where is not None:
    ex(q.where, nz)
    nz = nonzero(q.where, True)
  for e, _ in q.items:
    ex(e, nz)
  for e in list(q.group) + [o for o, _ in q.order] + (
      [q.having] if q.having else []):
    ex(e, nz)


def nonzero(c, outcome):
  """Expressions that are not 0 when the condition is true (false)."""
  if c[0] == 'un' and c[1] == 'NOT':
    return nonzero(c[2], not outcome)
  if c[0] == 'bin' and c[1] == ('AND' if outcome else 'OR'):
    return nonzero(c[2], outcome) | nonzero(c[3], outcome) | (
        apart(c) if outcome else frozenset())
  if c[0] != 'bin':
    return frozenset()
  op, l, r = c[1:]
  zero = lambda x: x[0] == 'num' and x[1].strip('0.') == ''
  if zero(l):
    l, r = r, l
    op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
  if zero(r) and (op in ('!=', '>', '<') if outcome else op in (
      '=', '>=', '<=')):
    return frozenset([sa.show(l)])
  return frozenset()


def apart(c):
  """Differences that can't be 0 because the terms are ordered."""
  less = {}
  for x in conjuncts(c):
    if x[0] != 'bin' or x[1] not in ('<', '<=', '>', '>='):
      continue
    a, b = (x[2], x[3]) if x[1][0] == '<' else (x[3], x[2])
    a, b = sa.show(a), sa.show(b)
    less[a, b] = less.get((a, b)) or '=' not in x[1]
  for _ in range(len(less)):
    for (a, b), s1 in list(less.items()):
      for (b2, d), s2 in list(less.items()):
        if b == b2:
          less[a, d] = less.get((a, d)) or s1 or s2
  out = set()
  for (a, b), strict in less.items():
    if strict:
      out |= {'(%s - %s)' % (b, a), '(%s - %s)' % (a, b)}
  return frozenset(out)


def safe_denominator(d, nz):
  """Can the denominator not be 0?"""
  if sa.show(d) in nz:
    return True
  if d[0] == 'num':
    t = d[1]
    if t == 'NULL':
      return True
    return t.lower().startswith('0x') and set(t[2:]) != {'0'} or (
        t.strip('0.') != '' and not t.lower().startswith('0x'))
  if d[0] == 'fn':
    if d[1] == 'NULLIF' and d[2][1] == ('num', '0'):
      return True
    if d[1] in ('SQRT', 'SAFE.SQRT', 'ABS', 'CAST'):
      return safe_denominator(d[2][0], nz)
    if d[1] in ('POWER', 'SAFE.POWER', 'POW'):
      return safe_denominator(d[2][0], nz)
  if d[0] == 'bin' and d[1] == '*':
    return safe_denominator(d[2], nz) and safe_denominator(d[3], nz)
  return False
