"""A reader of the SQL that the builders render.

Turns query text into nested tuples:
  ('col', qualifier or None, name)      ('num', text)   ('str', text)
  ('fn', NAME, args, opts)              ('bin', op, l, r)
  ('un', op, x)                         ('case', [(cond, value)], default)
  ('star', qualifier, excepted names)   ('list', items)
  ('index', x, i)                       ('query', Query)
opts of a function: distinct, order (list), limit, over (dict partition, order,
frame), nulls.
"""
import re

TOKEN = re.compile(r'''
  (?P<ws>\s+|--[^\n]*)
 |(?P<str>r?"(?:\\.|[^"\\])*"|r?'(?:\\.|[^'\\])*')
 |(?P<bt>`[^`]*`)
 |(?P<num>0[xX][0-9a-fA-F]+|\d+\.\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|\d+(?:[eE][-+]?\d+)?)
 |(?P<id>[A-Za-z_][A-Za-z_0-9]*)
 |(?P<op><=|>=|!=|<>|==|\|\||[-+*/%(),.<>=\[\];&|^~])
''', re.X)

STOP = {'SELECT', 'FROM', 'WHERE', 'GROUP', 'ORDER', 'JOIN', 'LEFT', 'RIGHT',
        'FULL', 'CROSS', 'INNER', 'OUTER', 'ON', 'USING', 'AS', 'AND', 'OR',
        'HAVING', 'LIMIT', 'UNION', 'OVER', 'WHEN', 'THEN', 'ELSE', 'END',
        'IN', 'IS', 'BETWEEN', 'LIKE', 'NOT', 'WITH', 'PARTITION', 'ROWS',
        'RANGE', 'DESC', 'ASC', 'BY', 'EXCEPT', 'IGNORE', 'RESPECT'}


class SqlError(Exception):
  pass


class Query:

  def __init__(self):
    self.ctes = []      # (name, Query)
    self.items = []     # (expr, alias or None)
    self.distinct = False
    self.source = None  # Source or None
    self.where = None
    self.group = []
    self.having = None
    self.order = []
    self.limit = None
    self.text = ''


class Source:
  """A table, a subquery, an UNNEST or a join of two sources."""

  def __init__(self, kind, **kw):
    self.kind = kind
    self.alias = None
    self.__dict__.update(kw)


def tokens(text):
  out, i = [], 0
  while i < len(text):
    m = TOKEN.match(text, i)
    if not m:
      raise SqlError('unexpected %r' % text[i:i + 20])
    i = m.end()
    k = m.lastgroup
    if k != 'ws':
      out.append((k, m.group(), m.start(), m.end()))
  out.append(('end', '', len(text), len(text)))
  return out


def parse(text):
  p = Parser(text)
  q = p.query()
  while p.at(';'):
    p.next()
  p.expect('')
  return q


def parse_expr(text):
  p = Parser(text)
  e = p.expr()
  p.expect('')
  return e


class Parser:

  def __init__(self, text):
    self.text = text
    self.toks = tokens(text)
    self.i = 0

  @property
  def tok(self):
    return self.toks[self.i]

  def next(self):
    t = self.toks[self.i]
    self.i += 1
    return t

  def at(self, *words):
    k, t = self.tok[:2]
    for j, w in enumerate(words):
      k, t = self.toks[min(self.i + j, len(self.toks) - 1)][:2]
      if w == '':
        if k != 'end':
          return False
      elif k in ('str', 'bt') or t.upper() != w:
        return False
    return True

  def take(self, *words):
    if self.at(*words):
      self.i += len(words)
      return True
    return False

  def expect(self, w):
    if not self.at(w):
      raise SqlError('expected %r at %r' % (
          w, self.text[self.tok[2]:self.tok[2] + 40]))
    if w:
      self.i += 1

  # ----------------------------------------------------------------- queries
  def query(self):
    start = self.tok[2]
    q = Query()
    if self.take('('):
      q = self.query()
      self.expect(')')
      return q
    ctes = []
    if self.take('WITH'):
      while True:
        name = self.name()
        self.expect('AS')
        self.expect('(')
        ctes.append((name, self.query()))
        self.expect(')')
        if not self.take(','):
          break
    self.expect('SELECT')
    q.ctes = ctes
    q.distinct = self.take('DISTINCT')
    while True:
      q.items.append(self.item())
      if not self.take(','):
        break
    if self.take('FROM'):
      q.source = self.sources()
    if self.take('WHERE'):
      q.where = self.expr()
    if self.take('GROUP', 'BY'):
      q.group = self.exprs()
    if self.take('HAVING'):
      q.having = self.expr()
    if self.take('ORDER', 'BY'):
      q.order = self.orders()
    if self.take('LIMIT'):
      q.limit = self.expr()
    q.text = self.text[start:self.tok[2]]
    return q

  def exprs(self):
    out = [self.expr()]
    while self.take(','):
      out.append(self.expr())
    return out

  def orders(self):
    out = []
    while True:
      e = self.expr()
      d = 'ASC'
      if self.take('DESC'):
        d = 'DESC'
      else:
        self.take('ASC')
      out.append((e, d))
      if not self.take(','):
        return out

  def item(self):
    if self.take('*'):
      return self.star(None), None
    k, t = self.tok[:2]
    if k in ('id', 'bt') and self.toks[self.i + 1][1] == '.' and (
        self.toks[self.i + 2][1] == '*'):
      self.i += 3
      return self.star(t.strip('`')), None
    e = self.expr()
    alias = None
    if self.take('AS'):
      alias = self.name()
    elif self.tok[0] in ('id', 'bt') and self.tok[1].upper() not in STOP:
      alias = self.name()
    return e, alias

  def star(self, q):
    names = []
    if self.at('EXCEPT', '('):
      self.i += 2
      names.append(self.name())
      while self.take(','):
        names.append(self.name())
      self.expect(')')
    return ('star', q, tuple(names))

  def name(self):
    k, t = self.next()[:2]
    if k == 'bt':
      return t.strip('`')
    if k != 'id':
      raise SqlError('name expected, got %r' % t)
    return t

  def sources(self):
    left = self.source()
    while True:
      kind = None
      if self.take('CROSS', 'JOIN'):
        kind = 'CROSS'
      elif self.take(','):
        kind = 'CROSS'
      else:
        for w in ('LEFT', 'RIGHT', 'FULL', 'INNER'):
          if self.at(w, 'OUTER', 'JOIN'):
            self.i += 3
            kind = w
          elif self.at(w, 'JOIN'):
            self.i += 2
            kind = w
        if kind is None and self.take('JOIN'):
          kind = 'INNER'
      if kind is None:
        return left
      right = self.source()
      j = Source('join', how=kind, left=left, right=right, using=[], on=None)
      if self.take('USING'):
        self.expect('(')
        j.using.append(self.name())
        while self.take(','):
          j.using.append(self.name())
        self.expect(')')
      elif self.take('ON'):
        j.on = self.expr()
      left = j

  def source(self):
    if self.at('('):
      if self.at('(', 'SELECT') or self.at('(', 'WITH'):
        self.i += 1
        s = Source('sub', query=self.query())
        self.expect(')')
      else:
        self.i += 1
        s = self.sources()
        self.expect(')')
    elif self.at('UNNEST', '('):
      self.i += 2
      s = Source('unnest', arg=self.expr())
      self.expect(')')
    else:
      k, t = self.next()[:2]
      if k not in ('id', 'bt'):
        raise SqlError('table expected, got %r' % t)
      name = t.strip('`')
      while self.at('.'):
        self.next()
        name += '.' + self.name()
      s = Source('table', name=name)
    if self.take('AS'):
      s.alias = self.name()
    elif self.tok[0] in ('id', 'bt') and self.tok[1].upper() not in STOP:
      s.alias = self.name()
    return s

  # ------------------------------------------------------------- expressions
  def expr(self):
    left = self.conj()
    while self.take('OR'):
      left = ('bin', 'OR', left, self.conj())
    return left

  def conj(self):
    left = self.neg()
    while self.take('AND'):
      left = ('bin', 'AND', left, self.neg())
    return left

  def neg(self):
    if self.take('NOT'):
      return ('un', 'NOT', self.neg())
    return self.cmp()

  def cmp(self):
    left = self.sum()
    while True:
      t = self.tok[1].upper() if self.tok[0] in ('op', 'id') else ''
      if t in ('=', '==', '!=', '<>', '<', '>', '<=', '>='):
        self.next()
        op = {'==': '=', '<>': '!='}.get(t, t)
        left = ('bin', op, left, self.sum())
      elif t == 'IS':
        self.next()
        no = self.take('NOT')
        what = self.next()[1].upper()
        left = ('fn', 'IS_' + what, (left,), {})
        if no:
          left = ('un', 'NOT', left)
      elif t in ('IN', 'BETWEEN', 'LIKE') or t == 'NOT' and self.toks[
          self.i + 1][1].upper() in ('IN', 'BETWEEN', 'LIKE'):
        no = self.take('NOT')
        t = self.next()[1].upper()
        if t == 'IN':
          if self.at('UNNEST'):
            r = (self.sum(),)
          else:
            self.expect('(')
            r = (('query', self.query()),) if self.at('SELECT') else tuple(
                self.exprs())
            self.expect(')')
          left = ('fn', 'IN', (left,) + r, {})
        elif t == 'LIKE':
          left = ('fn', 'LIKE', (left, self.sum()), {})
        else:
          lo = self.sum()
          self.expect('AND')
          left = ('fn', 'BETWEEN', (left, lo, self.sum()), {})
        if no:
          left = ('un', 'NOT', left)
      else:
        return left

  def sum(self):
    left = self.prod()
    while self.tok[0] == 'op' and self.tok[1] in ('+', '-', '||', '|', '^'):
      op = self.next()[1]
      left = ('bin', op, left, self.prod())
    return left

  def prod(self):
    left = self.unary()
    while self.tok[0] == 'op' and self.tok[1] in ('*', '/', '%', '&'):
      op = self.next()[1]
      left = ('bin', op, left, self.unary())
    return left

  def unary(self):
    if self.tok[0] == 'op' and self.tok[1] in ('-', '+', '~'):
      return ('un', self.next()[1], self.unary())
    return self.postfix()

  def postfix(self):
    x = self.atom()
    while True:
      if self.at('['):
        self.next()
        i = self.expr()
        self.expect(']')
        x = ('index', x, i)
      elif self.at('.') and x[0] not in ('num',):
        self.next()
        f = self.name()
        x = ('fn', 'FIELD', (x, ('str', f)), {})
      else:
        return x

  def atom(self):
    k, t = self.tok[:2]
    if k == 'num':
      self.next()
      return ('num', t)
    if k == 'str':
      self.next()
      return ('str', t)
    if self.at('('):
      self.next()
      if self.at('SELECT') or self.at('WITH'):
        q = ('query', self.query())
        self.expect(')')
        return q
      xs = self.exprs()
      self.expect(')')
      return xs[0] if len(xs) == 1 else ('list', tuple(xs))
    if self.at('['):
      self.next()
      xs = self.exprs() if not self.at(']') else []
      self.expect(']')
      return ('list', tuple(xs))
    if self.at('CASE'):
      return self.case()
    if self.at('*'):
      self.next()
      return ('star', None, ())
    if k not in ('id', 'bt'):
      raise SqlError('unexpected %r at %r' % (
          t, self.text[self.tok[2]:self.tok[2] + 40]))
    if k == 'id' and t.upper() in STOP:
      raise SqlError('unexpected %r at %r' % (
          t, self.text[self.tok[2]:self.tok[2] + 40]))
    parts = [self.name()]
    while self.at('.') and self.toks[self.i + 1][0] in ('id', 'bt'):
      self.next()
      parts.append(self.name())
    if self.at('('):
      return self.call('.'.join(parts).upper())
    if len(parts) == 1:
      if k == 'id' and t.upper() in ('NULL', 'TRUE', 'FALSE'):
        return ('num', t.upper())
      return ('col', None, parts[0])
    return ('col', '.'.join(parts[:-1]), parts[-1])

  def case(self):
    self.expect('CASE')
    whens, default = [], ('num', 'NULL')
    subject = None if self.at('WHEN') else self.expr()
    while self.take('WHEN'):
      c = self.expr()
      if subject is not None:
        c = ('bin', '=', subject, c)
      self.expect('THEN')
      whens.append((c, self.expr()))
    if self.take('ELSE'):
      default = self.expr()
    self.expect('END')
    return ('case', tuple(whens), default)

  def call(self, fn):
    self.expect('(')
    opts, args = {}, []
    if fn == 'CAST' or fn == 'SAFE_CAST':
      x = self.expr()
      self.expect('AS')
      ty = self.name()
      self.expect(')')
      return ('fn', fn, (x, ('str', ty)), {})
    if self.take('DISTINCT'):
      opts['distinct'] = True
    while not self.at(')'):
      if self.at('ORDER', 'BY'):
        self.i += 2
        opts['order'] = self.orders()
      elif self.take('LIMIT'):
        opts['limit'] = self.expr()
      elif self.at('IGNORE', 'NULLS') or self.at('RESPECT', 'NULLS'):
        opts['nulls'] = self.tok[1].upper()
        self.i += 2
      elif self.at('SELECT'):
        args.append(('query', self.query()))
      else:
        x = self.expr()
        if self.take('AS'):
          self.name()
        args.append(x)
      self.take(',')
    self.expect(')')
    if self.take('OVER'):
      over = {'partition': [], 'order': [], 'frame': ''}
      self.expect('(')
      if self.take('PARTITION', 'BY'):
        over['partition'] = self.exprs()
      if self.take('ORDER', 'BY'):
        over['order'] = self.orders()
      start = self.tok[2]
      while not self.at(')'):
        self.next()
      over['frame'] = ' '.join(self.text[start:self.tok[2]].split()).upper()
      self.expect(')')
      opts['over'] = over
    return ('fn', fn, tuple(args), opts)


def children(e):
  """Direct subexpressions."""
  k = e[0]
  if k == 'fn':
    yield from e[2]
    o = e[3]
    for x, _ in o.get('order', ()):
      yield x
    if 'over' in o:
      yield from o['over']['partition']
      for x, _ in o['over']['order']:
        yield x
  elif k == 'bin':
    yield from e[2:4]
  elif k == 'un':
    yield e[2]
  elif k == 'case':
    for c, v in e[1]:
      yield c
      yield v
    yield e[2]
  elif k == 'list':
    yield from e[1]
  elif k == 'index':
    yield e[1]
    yield e[2]


def walk(e):
  yield e
  for c in children(e):
    yield from walk(c)


def show(e):
  """Canonical text of an expression."""
  k = e[0]
  if k == 'col':
    return '%s.%s' % (e[1], e[2]) if e[1] else e[2]
  if k in ('num', 'str'):
    return e[1]
  if k == 'star':
    return (e[1] + '.' if e[1] else '') + '*'
  if k == 'bin':
    return '(%s %s %s)' % (show(e[2]), e[1], show(e[3]))
  if k == 'un':
    return '(%s %s)' % (e[1], show(e[2]))
  if k == 'case':
    return 'CASE %s ELSE %s END' % (' '.join(
        'WHEN %s THEN %s' % (show(c), show(v)) for c, v in e[1]), show(e[2]))
  if k == 'list':
    return '[%s]' % ', '.join(map(show, e[1]))
  if k == 'index':
    return '%s[%s]' % (show(e[1]), show(e[2]))
  if k == 'query':
    return '(%s)' % ' '.join(e[1].text.split())
  o = e[3]
  s = '%s(%s%s' % (e[1], 'DISTINCT ' if o.get('distinct') else '',
                   ', '.join(map(show, e[2])))
  if o.get('order'):
    s += ' ORDER BY ' + ', '.join('%s %s' % (show(x), d)
                                  for x, d in o['order'])
  if 'limit' in o:
    s += ' LIMIT ' + show(o['limit'])
  s += ')'
  if 'over' in o:
    v = o['over']
    s += ' OVER (%s|%s|%s)' % (
        ', '.join(map(show, v['partition'])),
        ', '.join('%s %s' % (show(x), d) for x, d in v['order']), v['frame'])
  return s
