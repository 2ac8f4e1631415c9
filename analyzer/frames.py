"""Abstract interpretation of the pandas code of the metrics.

Data frames, series and numbers computed from the data are terms of sqlterm:
the input is the base table, df.query adds a condition, a grouped sum is the
term of SUM over the rows of each group, and so on. Everything else (options,
names, the structure of the tree, caches) is folded by the interpreter. What
is not modelled raises Undecided.
"""
import ast

from . import sqlref as sr, sqlterm as st, trees
from .absint import C, NONE, O, V, AbsRaise
from .sqlterm import EMPTY, Undecided, num, op

CUM = 'ROWS BETWEEN UNBOUNDED PRECEDING AND CURRENT ROW'
TAGS = {'df': 'DataFrame', 'series': 'Series', 'cols': 'Series',
        'scalar': 'number', 'quantiles': 'Series'}
AGGS = {'sum': 'SUM', 'mean': 'AVG', 'max': 'MAX', 'min': 'MIN',
        'count': 'COUNT'}
FREE = ('s1', 's2')


class F:
  """What a data frame, a series, a number, ... holds.

  kind: df, series, cols (a series indexed by the columns of a frame), scalar,
  group, index, level, mask, item (of .indices), at (.iloc).
  """

  def __init__(self, kind, cols=(), rows=False, idx=(), ctx=(), conds=EMPTY,
               cons=EMPTY, order=(), name=None, keys=(), pend=(), nth=None,
               bound=None, mask=None, flat=None):
    self.kind = kind
    self.cols = list(cols)      # (label, term)
    self.rows = rows            # one row per row of the data
    self.idx = tuple(idx)       # names of the levels of the index
    self.ctx = tuple(ctx)       # columns that have one value here
    self.conds = frozenset(conds)
    self.cons = frozenset(cons)
    self.order = order          # None: not known
    self.name = name
    self.keys = tuple(keys)
    self.pend = tuple(pend)
    self.nth = nth
    self.bound = bound
    self.mask = mask
    self.flat = flat

  def but(self, **kw):
    f = F.__new__(F)
    f.__dict__.update(self.__dict__)
    f.__dict__.update(kw)
    f.cols = list(f.cols)
    return f

  @property
  def t(self):
    return self.cols[0][1]

  @property
  def rel(self):
    return st.BASE if self.rows else st.groups(self.ctx + self.idx, self.cons)


def low(x):
  return x.lower() if isinstance(x, str) else x


def unfilt(t):
  return (t[2], t[1]) if t[0] == 'filt' else (t, EMPTY)


def aggregate(f, name, t, keys, extra=()):
  return st.agg(name, t, f.conds if f.rows else EMPTY, f.ctx + tuple(keys),
                f.rel, extra)


def term_of(c):
  if isinstance(c, bool) or c is None:
    raise Undecided('constant %r' % (c,))
  if isinstance(c, str):
    return ('s', c)
  return num(c if isinstance(c, int) else str(c))


class Frames(trees.Runner):

  MAX_ITEMS = 60
  FORKS = False

  def __init__(self, *a, marks=(), **k):
    super().__init__(*a, **k)
    self.marks = marks

  # ----------------------------------------------------------------- values
  def val(self, v):
    """The F of a value, None if it is something else."""
    if v is None or v.top or v.consts or len(v.refs) != 1:
      if v is not None and any(o.val is not None for _, o in self.objs(v)):
        raise Undecided('one of several values')
      return None
    o = next((o for _, o in self.objs(v)), None)
    if o is None or o.val is None or o.val == 'columns':
      return None
    if o.val == 'mixed':
      raise Undecided('values of several paths')
    return o.val

  def mk(self, fr, n, f, extra=''):
    self.made = getattr(self, 'made', 0) + 1
    oid = ('frame', self.made)
    self.heap[oid] = O('ext', tag=TAGS.get(f.kind, 'frame'), val=f,
                       deps=frozenset(['DATA']))
    return V(refs=frozenset([('o', oid)]), deps=frozenset(['DATA']))

  def put(self, v, f):
    (r,) = v.refs
    o = self.heap[r[1]].copy()
    o.val = f
    o.tag = TAGS.get(f.kind, 'frame')
    self.heap[r[1]] = o

  def const_or_undecided(self, v, what):
    c = v.const()
    if c is None:
      raise Undecided(what)
    return c[0]

  def flag(self, kwargs, name, default=False):
    v = kwargs.get(name)
    if v is None:
      return default
    t = self.truth(v)
    if t is None:
      raise Undecided(name)
    return t

  def strings(self, v):
    """A list of names given as a string or a list."""
    c = v.const()
    if c is not None:
      if c[0] is None:
        return None
      if isinstance(c[0], (str, int)):
        return [c[0]]
      raise Undecided('names')
    f = self.val(v)
    if f is not None:
      raise Undecided('names')
    xs = self.exact_items(v)
    if xs is None:
      raise Undecided('names')
    return [self.const_or_undecided(x, 'names') for x in xs]

  def number(self, v):
    f = self.val(v)
    if f is not None:
      return f
    c = v.const()
    if c is not None and isinstance(c[0], (int, float)):
      return F('scalar', [(None, term_of(c[0] if not isinstance(
          c[0], bool) else int(c[0])))])
    raise Undecided('operand')

  def labels_list(self, fr, n, xs, extra='columns'):
    v = self.alloc(fr, n, O('list', items=[C(x) for x in xs]), extra)
    for r, o in list(self.objs(v)):
      self.heap[r[1] if r[0] == 'o' else r] = o.copy(val='columns')
    return v

  # ---------------------------------------------------------------- control
  def truth(self, v):
    t = super().truth(v)
    if t is None:
      f = self.val(v)
      if f is not None:
        if f.kind in ('index', 'level'):
          return True
        raise Undecided('branch on data')
    return t

  def s_If(self, s, fr):
    self.testing = s
    return super().s_If(s, fr)

  def s_Raise(self, s, fr):
    e = s.exc
    e = e.func if isinstance(e, ast.Call) else e
    self.raising = ast.unparse(e).split('.')[-1] if e is not None else (
        self.raising)
    return super().s_Raise(s, fr)

  def handler_of(self, s):
    for h in s.handlers:
      ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
      for t in ts:
        t = ast.unparse(t).split('.')[-1] if t is not None else None
        if t in (None, 'Exception', 'BaseException') or self.raising == t:
          return h
        if self.raising is None or self.raising not in KNOWN_ERRORS or (
            t not in KNOWN_ERRORS):
          raise Undecided('which exception')
    return None

  def s_Try(self, s, fr):
    """Only what the analysed code raises is raised."""
    self.raise_states.append([])
    self.exc.append({})
    self.raising = None
    nret = len(fr.returns)
    ft = self.block(s.body, fr)
    raised = self.raise_states.pop()
    self.exc.pop()
    escapes = False
    if raised and (ft or len(fr.returns) > nret):
      raise Undecided('may raise')
    if raised:
      h = self.handler_of(s)
      if h is None:
        escapes = True
        if self.raise_states:
          self.raise_states[-1].extend(raised)
      else:
        if h.name:
          fr.locals[h.name] = self.ext(fr, h, EMPTY)
        ft = self.block(h.body, fr)
    elif ft and s.orelse:
      ft = self.block(s.orelse, fr)
    if s.finalbody:
      f = self.block(s.finalbody, fr)
      ft = ft and f
    if escapes:
      raise AbsRaise()
    return ft

  def type_matches(self, v, tv):
    try:
      f = self.val(v)
    except Undecided:
      f = None
      raise
    if f is None:
      return super().type_matches(v, tv)
    ext = {r[1] for r in tv.refs if r[0] == 'ext'}
    for _, o in self.objs(tv):
      if o.kind in ('tuple', 'list'):
        ext |= {r[1] for r in o.all_elem().refs if r[0] == 'ext'}
    short = {e.rsplit('.', 1)[-1] for e in ext}
    if f.kind == 'df':
      return 'DataFrame' in short
    if f.kind in ('series', 'cols', 'quantiles'):
      return 'Series' in short
    if f.kind == 'scalar':
      return bool(short & {'float', 'int', 'Number', 'Real'})
    if f.kind == 'index':
      return 'MultiIndex' in short and len(f.idx) > 1 or 'Index' in short
    return False

  def compared(self, n, fr, vals):
    fs = [self.val(v) for v in vals]
    if not any(fs) or len(n.ops) != 1:
      if any(fs):
        raise Undecided('comparison')
      if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and (
          self.only(vals[0], 'inst') and self.only(vals[1], 'dict')):
        # What a cache holds for the key is what is computed here.
        return C(isinstance(n.ops[0], ast.NotIn))
      return super().compared(n, fr, vals)
    o = n.ops[0]
    a, b = vals
    fa, fb = fs
    if isinstance(o, (ast.Is, ast.IsNot)):
      if a.const() is not None or b.const() is not None:
        return C(isinstance(o, ast.IsNot))
      raise Undecided('is')
    if isinstance(o, (ast.In, ast.NotIn)):
      if fb is None:
        raise Undecided('in')
      name = self.const_or_undecided(a, 'in')
      return C(self.has(fb, name) == isinstance(o, ast.In))
    sign = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
            ast.Eq: '=', ast.NotEq: '!='}.get(type(o))
    if any(x is not None and x.kind in ('level', 'colname', 'rowcols')
           for x in fs):
      raise Undecided('comparison')
    return self.mk(fr, n, self.both(
        self.number(a) if fa is None else fa,
        self.number(b) if fb is None else fb,
        lambda x, y: ('cond', ('cmp', sign, x, y))))

  def only(self, v, kind):
    objs = [o for _, o in self.objs(v)]
    return not v.top and not v.consts and objs and len(objs) == len(
        v.refs) and all(o.kind == kind for o in objs)

  def has(self, f, name):
    if f.kind not in ('df',):
      raise Undecided('in')
    if any(l == name for l, _ in f.cols):
      return True
    if f.rows:
      if isinstance(name, str) and not name.isidentifier() or (
          str(name).startswith('meterstick')):
        return False
      raise Undecided('in')
    return False

  # -------------------------------------------------------------- arithmetic
  def both(self, a, b, fn):
    """A binary operation, aligned on the index."""
    if a.kind == 'scalar' and b.kind == 'scalar':
      return F('scalar', [(None, fn(a.t, b.t))], ctx=a.ctx or b.ctx)
    if b.kind == 'scalar':
      return a.but(cols=[(l, fn(t, b.t)) for l, t in a.cols])
    if a.kind == 'scalar':
      return b.but(cols=[(l, fn(a.t, t)) for l, t in b.cols])
    if a.rows or b.rows:
      if not (a.rows and b.rows) or a.conds != b.conds or a.ctx != b.ctx or (
          a.kind != 'series' or b.kind != 'series'):
        raise Undecided('alignment of rows')
      return a.but(cols=[(None, fn(a.t, b.t))], name=None)
    if 'cols' in (a.kind, b.kind):
      if a.kind == b.kind or a.kind == 'df' or b.kind == 'df':
        la, lb = [l for l, _ in a.cols], [l for l, _ in b.cols]
        if la != lb:
          raise Undecided('alignment of columns')
        base = a if a.kind == 'df' else b
        return base.but(cols=[(l, fn(x, y)) for (l, x), (_, y) in zip(
            a.cols, b.cols)])
      raise Undecided('alignment')
    if a.ctx != b.ctx:
      raise Undecided('alignment of slices')
    sa, sb = set(a.idx), set(b.idx)
    if not (sa <= sb or sb <= sa):
      raise Undecided('alignment of indexes')
    big = a if sa >= sb else b
    if a.kind != b.kind:
      raise Undecided('alignment of a frame and a series')
    if a.kind == 'df':
      la, lb = [l for l, _ in a.cols], [l for l, _ in b.cols]
      if la != lb:
        raise Undecided('alignment of columns')
    cols = [(l if a.kind == 'df' else None, fn(x, y))
            for (l, x), (_, y) in zip(a.cols, b.cols)]
    name = a.name if a.name == b.name else None
    same = a.idx == b.idx and a.order == b.order
    return big.but(cols=cols, name=name, cons=a.cons | b.cons,
                   order=big.order if same else (
                       big.order if sa != sb else None))

  OPS = {'Add': lambda a, b: op('+', a, b),
         'Sub': lambda a, b: op('+', a, op('neg', b)),
         'Mult': lambda a, b: op('*', a, b),
         'Div': lambda a, b: op('/', a, b)}

  def binop(self, name, l, r, fr, n):
    a, b = self.val(l), self.val(r)
    if a is None and b is None or any(
        o.kind == 'inst' for v in (l, r) for _, o in self.objs(v)):
      return super().binop(name, l, r, fr, n)
    if name in ('BitAnd', 'BitOr') and a is not None and b is not None:
      f = (lambda x, y: ('cond', st.conj(cond(x), cond(y)))) if (
          name == 'BitAnd') else (
              lambda x, y: ('cond', st.disj(cond(x), cond(y))))
      return self.mk(fr, n, self.both(a, b, f))
    if name == 'Pow':
      fn = power
    else:
      fn = self.OPS.get(name)
    if fn is None:
      raise Undecided(name)
    return self.mk(fr, n, self.both(self.number(l), self.number(r), fn))

  def e_UnaryOp(self, n, fr):
    v = self.ev(n.operand, fr)
    f = self.val(v)
    if f is None:
      self.given = getattr(self, 'given', {})
      self.given[id(n.operand)] = v
      return super().e_UnaryOp(n, fr)
    if isinstance(n.op, ast.USub):
      return self.mk(fr, n, f.but(cols=[(l, op('neg', t)) for l, t in f.cols]))
    if isinstance(n.op, ast.Invert):
      return self.mk(fr, n, f.but(cols=[(l, ('cond', st.negate(cond(t))))
                                        for l, t in f.cols]))
    if isinstance(n.op, ast.Not) and f.kind == 'level':
      return C(False)
    raise Undecided('unary')

  def ev(self, n, fr):
    g = getattr(self, 'given', None)
    if g and id(n) in g:
      return g.pop(id(n))
    return super().ev(n, fr)

  def s_AugAssign(self, s, fr):
    cur = self.ev(self.as_load(s.target), fr)
    if self.val(cur) is not None:
      r = self.ev(s.value, fr)
      res = self.binop(type(s.op).__name__, cur, r, fr, s)
      self.assign(s.target, res, fr, s)
      return True
    return super().s_AugAssign(s, fr)

  # -------------------------------------------------------------- attributes
  def load_attr(self, base, name, frame, node):
    for _, o in self.objs(base):
      if o.val == 'columns' and name == 'names':
        return self.alloc(frame, node, O('list', items=[NONE]), 'names')
      if o.val == 'columns' and name == 'values':
        return base
      if o.val == 'columns' and name == 'name':
        return NONE
    f = self.val(base)
    if f is None:
      return super().load_attr(base, name, frame, node)
    return self.attr(f, base, name, frame, node)

  def attr(self, f, base, name, fr, n):
    if name == 'columns' and f.kind == 'df' and not f.rows:
      return self.labels_list(fr, n, [l for l, _ in f.cols])
    if name == 'columns' and f.kind == 'df':
      return self.mk(fr, n, F('rowcols', cols=f.cols))
    if name == 'index' and not f.rows:
      return self.mk(fr, n, F('index', idx=f.idx, ctx=f.ctx, order=f.order,
                              cons=f.cons, flat=f.kind))
    if name == 'names' and f.kind == 'index':
      return self.alloc(fr, n, O('list', items=[C(x) for x in f.idx] or [
          NONE]), 'names')
    if name == 'name':
      if f.kind == 'series':
        return C(f.name) if f.name is None or isinstance(
            f.name, str) else NONE
      if f.kind == 'level':
        return C(f.name)
      if f.kind == 'index':
        return C(f.idx[0] if len(f.idx) == 1 else None)
    if name == 'nlevels' and f.kind == 'index':
      return C(max(1, len(f.idx)))
    if name == 'levels' and f.kind == 'index':
      return self.alloc(fr, n, O('list', items=[self.mk(
          fr, n, F('level', name=x, ctx=f.ctx)) for x in f.idx]), 'levels')
    if name in ('iloc', 'loc', 'at') and f.kind in ('df', 'series', 'cols'):
      return self.mk(fr, n, F('at', bound=(name, f, base)))
    if name == 'indices' and f.kind == 'group':
      return self.mk(fr, n, f.but(kind='indices'))
    if name == 'T' and f.kind == 'df' and f.flat == 'row':
      return self.mk(fr, n, f.but(flat=None))
    if name == 'values' and f.kind == 'series':
      return base
    if name == 'ndim':
      return C({'df': 2, 'scalar': 0}.get(f.kind, 1))
    if f.kind in ('df',) and any(l == name for l, _ in f.cols):
      return self.column(f, name, fr, n)
    raise Undecided('attribute %s of %s' % (name, f.kind))

  def store_attr(self, base, name, val, frame, node):
    try:
      f = self.val(base)
    except Undecided:
      raise
    if f is None:
      return super().store_attr(base, name, val, frame, node)
    if name == 'name' and f.kind in ('series', 'cols'):
      c = val.const()
      return self.put(base, f.but(name=c[0] if c is not None else '?'))
    if name == 'columns' and f.kind == 'df' and not f.rows:
      xs = self.exact_items(val)
      cs = None if xs is None else [x.const() for x in xs]
      if cs is None or None in cs:
        raise Undecided('names of columns')
      if len(cs) != len(f.cols):
        self.raising = 'ValueError'
        raise AbsRaise()
      return self.put(base, f.but(cols=[(c[0], t) for c, (_, t) in zip(
          cs, f.cols)]))
    if name == 'names' and f.kind == 'index' and (
        self.strings(val) == (list(f.idx) or [None])):
      return None
    raise Undecided('store of %s' % name)

  # -------------------------------------------------------------- subscripts
  def e_Subscript(self, n, fr):
    b = self.ev(n.value, fr)
    f = self.val(b)
    if f is None:
      self.given = getattr(self, 'given', {})
      self.given[id(n.value)] = b
      return super().e_Subscript(n, fr)
    if f.kind == 'at':
      return self.located(f, n, fr)
    k = self.ev(n.slice, fr)
    return self.item(f, b, k, fr, n)

  def item(self, f, b, k, fr, n):
    m = self.val(k)
    if m is not None:
      if m.kind == 'mask' or m.kind == 'series' and m.t[0] == 'cond':
        return self.mk(fr, n, self.masked(f, m))
      raise Undecided('item')
    if f.kind == 'group':
      c = k.const()
      names = [c[0]] if c is not None else self.strings(k)
      got = f.but(cols=[(x, self.col(f, x)) for x in names],
                  flat='one' if c is not None else None)
      return self.mk(fr, n, got)
    if f.kind == 'cols':
      c = self.const_or_undecided(k, 'key')
      for l, t in f.cols:
        if l == c:
          return self.mk(fr, n, F('scalar', [(None, t)], ctx=f.ctx))
      raise Undecided('key')
    if f.kind == 'series' and f.nth == 'all':
      c = self.const_or_undecided(k, 'position')
      if not isinstance(c, int) or c < 0:
        raise Undecided('position')
      return self.mk(fr, n, F('scalar', [(None, nth_term(
          f, f.t, c, ()))], ctx=f.ctx))
    if f.kind == 'series' and f.rows and f.order:
      c = self.const_or_undecided(k, 'position')
      if isinstance(c, int) and c >= 0:
        return self.mk(fr, n, F('scalar', [(None, nth_term(
            f, f.t, c, ()))], ctx=f.ctx))
    if f.kind != 'df':
      raise Undecided('item of %s' % f.kind)
    c = k.const()
    if c is not None:
      return self.column(f, c[0], fr, n)
    names = self.strings(k)
    return self.mk(fr, n, f.but(cols=[(x, self.col(f, x)) for x in names],
                                nth=f.nth))

  def col(self, f, name):
    for l, t in f.cols:
      if l == name:
        return t
    if f.rows and isinstance(name, str):
      return ('r', low(name))
    raise Undecided('column %r' % (name,))

  def column(self, f, name, fr, n):
    return self.mk(fr, n, f.but(kind='series', cols=[(
        name, self.col(f, name))], name=name))

  def masked(self, f, m):
    c = cond(m.t)
    if f.rows:
      if not m.rows or f.conds != m.conds:
        raise Undecided('mask')
      return f.but(conds=f.conds | st.flat(c))
    return f.but(cons=f.cons | st.flat(c))

  def located(self, at, n, fr):
    how, f, base = at.bound
    if how == 'iloc' and isinstance(n.slice, ast.Tuple) and len(
        n.slice.elts) == 2 and full(n.slice.elts[0]) and f.kind == 'df':
      i = self.const_or_undecided(self.ev(n.slice.elts[1], fr), 'iloc')
      if isinstance(i, int) and not f.rows:
        l, t = f.cols[i]
        return self.mk(fr, n, f.but(kind='series', cols=[(l, t)], name=l))
    k = self.ev(n.slice, fr) if not isinstance(n.slice, ast.Tuple) else None
    m = self.val(k) if k is not None else None
    if m is not None and m.kind == 'item':
      return self.mk(fr, n, f.but(ctx=f.ctx + tuple(
          x for x in m.keys if x not in f.ctx), pend=m.keys))
    if m is not None and m.kind in ('mask', 'series'):
      return self.mk(fr, n, self.masked(f, m))
    raise Undecided('%s' % how)

  def assign(self, t, v, fr, node, aug=False):
    if isinstance(t, ast.Subscript):
      b = self.ev(t.value, fr)
      f = self.val(b)
      if f is not None:
        return self.set_col(f, b, t, v, fr)
      self.given = getattr(self, 'given', {})
      self.given[id(t.value)] = b
    return super().assign(t, v, fr, node, aug)

  def set_col(self, f, b, t, v, fr):
    w = self.val(v)
    if f.kind == 'at':
      how, g, base = f.bound
      if how == 'iloc' and isinstance(t.slice, ast.Tuple) and len(
          t.slice.elts) == 2 and full(t.slice.elts[0]) and g.kind == 'df':
        i = self.const_or_undecided(self.ev(t.slice.elts[1], fr), 'iloc')
        if isinstance(i, int) and w is not None and (
            w.kind == 'series' and set(w.idx) <= set(g.idx)):
          cols = list(g.cols)
          cols[i] = (cols[i][0], w.t)
          # the frame the .iloc was taken from
          return self.put(base, g.but(cols=cols, cons=g.cons | w.cons))
      raise Undecided('assignment to %s' % how)
    k = self.const_or_undecided(self.ev(t.slice, fr), 'name of a column')
    if f.kind != 'df':
      raise Undecided('assignment')
    if w is None:
      x = self.number(v)
    else:
      x = w
    if x.kind == 'scalar':
      term = x.t
    elif x.kind == 'series' and x.rows == f.rows and x.conds == f.conds and (
        x.ctx == f.ctx and x.idx == f.idx):
      term = x.t
    else:
      raise Undecided('assignment of %s' % x.kind)
    cols = [(l, u) for l, u in f.cols if l != k]
    return self.put(b, f.but(cols=cols + [(k, term)]))

  # --------------------------------------------------------------- iteration
  def exact_items(self, v):
    if v.refs and len(v.refs) == 1 and not v.top and not v.consts:
      f = self.val(v)
      if f is not None:
        return self.items_of(f)
    return super().exact_items(v)

  def items_of(self, f):
    if f.kind == 'df' and not f.rows:
      return [C(l) for l, _ in f.cols]
    if f.kind == 'pairs':
      return list(f.bound)
    if f.kind == 'rowcols':
      return [C(l) for l, _ in f.cols] + [self.mk(None, None, F('colname'))]
    raise Undecided('iteration over %s' % f.kind)

  # ------------------------------------------------------------------- calls
  def call_method(self, n, fr, recv, name, args, kwargs, star, dstar):
    f = self.val(recv)
    if f is None:
      if recv.refs and len(recv.refs) == 1 and not recv.top and (
          not recv.consts):
        o = next((o for _, o in self.objs(recv)), None)
        if o is not None and o.val == 'columns' and name == 'tolist':
          return recv
      return super().call_method(n, fr, recv, name, args, kwargs, star, dstar)
    if star is not None:
      ex = self.exact_items(star)
      if ex is None:
        raise Undecided('*args')
      args = list(args) + ex
    if dstar is not None:
      raise Undecided('**kwargs')
    self.funcs_seen.add(('pandas', name)) if hasattr(
        self.funcs_seen, 'add') else None
    m = getattr(self, 'm_' + name, None)
    if m is None:
      raise Undecided('method %s of %s' % (name, f.kind))
    r = m(f, recv, list(args), kwargs, fr, n)
    return self.mk(fr, n, r) if isinstance(r, F) else r

  def m_query(self, f, recv, args, kwargs, fr, n):
    text = self.const_or_undecided(args[0], 'query')
    if not f.rows:
      raise Undecided('query of results')
    return f.but(conds=f.conds | sr.conditions([text], self.marks))

  def m_copy(self, f, recv, args, kwargs, fr, n):
    return f.but()

  def m_astype(self, f, recv, args, kwargs, fr, n):
    return f.but()

  def m_reset_index(self, f, recv, args, kwargs, fr, n):
    if self.flag(kwargs, 'inplace'):
      raise Undecided('inplace')
    if f.rows:
      if not self.flag(kwargs, 'drop'):
        raise Undecided('reset_index of rows')
      return f.but()
    names = self.strings(args[0]) if args else (
        self.strings(kwargs['level']) if 'level' in kwargs else list(f.idx))
    if self.flag(kwargs, 'drop'):
      raise Undecided('drop of levels')
    if any(x not in f.idx for x in names):
      raise Undecided('level')
    cols = [(x, ('k', low(x))) for x in f.idx if x in names]
    cols += [(f.name if f.kind == 'series' else l, t) for l, t in f.cols]
    # the rows stay those of all keys
    return f.but(kind='df', cols=cols, idx=tuple(
        x for x in f.idx if x not in names), pend=f.pend + tuple(
            x for x in f.idx if x in names))

  def m_groupby(self, f, recv, args, kwargs, fr, n):
    if 'level' in kwargs:
      keys = self.strings(kwargs['level'])
    else:
      keys = self.strings(args[0] if args else kwargs['by'])
    if keys is None or f.kind not in ('df', 'series'):
      raise Undecided('groupby')
    if f.rows:
      for x in keys:
        if self.col(f, x) != ('r', low(x)):
          raise Undecided('group by a computed column')
    elif any(x not in f.idx + f.pend for x in keys):
      raise Undecided('group by %s' % keys)
    return f.but(kind='group', keys=keys, flat='one' if (
        f.kind == 'series') else None)

  # aggregations, of groups, series and frames
  def reduce(self, f, fn):
    """fn(frame, term, keys) -> term."""
    if f.kind == 'group':
      base = f.but(kind='df')
      ks = tuple(low(k) for k in f.keys)
      cols = [(l, fn(base, t, ks)) for l, t in f.cols]
      if f.rows and not f.cols:
        raise Undecided('aggregation of all columns')
      kind = 'series' if f.flat == 'one' else 'df'
      return F(kind, cols, idx=f.keys, ctx=f.ctx, name=cols[0][0] if (
          kind == 'series') else None)
    if f.kind == 'series':
      return F('scalar', [(None, fn(f, f.t, ()))], ctx=f.ctx)
    if f.kind == 'df' and not f.rows:
      return F('cols', [(l, fn(f, t, ())) for l, t in f.cols], ctx=f.ctx)
    if f.kind == 'cols' and len(f.cols) == 1:
      return F('scalar', [(None, f.t)], ctx=f.ctx)
    raise Undecided('aggregation of %s' % f.kind)

  def simple(self, f, name, args, kwargs):
    if args or set(kwargs) - {'numeric_only', 'skipna', 'observed', 'axis'}:
      raise Undecided('options of %s' % name)
    if f.kind == 'list':
      raise Undecided(name)

    def one(g, t, ks):
      if t[0] == 'cond':
        if name != 'sum':
          raise Undecided('aggregate of a condition')
        return ('agg', 'COUNTIF', t, EMPTY, frozenset(g.ctx + ks), g.rel,
                EMPTY, ())
      if g.nth is not None:
        raise Undecided('aggregate of some rows')
      return aggregate(g, AGGS[name], t, ks)
    return self.reduce(f, one)

  def m_sum(self, f, recv, args, kwargs, fr, n):
    if f.nth is not None and f.kind in ('group', 'series'):
      # the sum of the k largest
      return self.reduce(f, lambda g, t, ks: top_sum(g, t, ks))
    return self.simple(f, 'sum', args, kwargs)

  def m_mean(self, f, recv, args, kwargs, fr, n):
    return self.simple(f, 'mean', args, kwargs)

  def m_max(self, f, recv, args, kwargs, fr, n):
    return self.simple(f, 'max', args, kwargs)

  def m_min(self, f, recv, args, kwargs, fr, n):
    return self.simple(f, 'min', args, kwargs)

  def m_count(self, f, recv, args, kwargs, fr, n):
    return self.simple(f, 'count', args, kwargs)

  def m_nunique(self, f, recv, args, kwargs, fr, n):
    if args or kwargs:
      raise Undecided('nunique')
    return self.reduce(f, lambda g, t, ks: aggregate(g, 'COUNT', t, ks, (
        'DISTINCT',)))

  def moment(self, f, name, args, kwargs):
    d = self.const_or_undecided(args[0] if args else kwargs.get(
        'ddof', C(1)), 'ddof')
    if d not in (0, 1):
      raise Undecided('ddof')
    return self.reduce(f, lambda g, t, ks: aggregate(
        g, name + ('_POP', '_SAMP')[int(d)], t, ks))

  def m_var(self, f, recv, args, kwargs, fr, n):
    return self.moment(f, 'VAR', args, kwargs)

  def m_std(self, f, recv, args, kwargs, fr, n):
    return self.moment(f, 'STDDEV', args, kwargs)

  def m_quantile(self, f, recv, args, kwargs, fr, n):
    q = args[0] if args else kwargs.get('q', C(.5))
    c = q.const()
    how = self.const_or_undecided(kwargs.get('interpolation', C('linear')),
                                  'interpolation')
    qs = [c[0]] if c is not None else [
        self.const_or_undecided(x, 'q') for x in self.exact_items(q) or [q]]

    def term(x):
      return lambda g, t, ks: aggregate(g, 'QUANTILE', t, ks, (
          str(x), how))
    if c is not None:
      return self.reduce(f, term(c[0]))
    rs = [self.reduce(f, term(x)) for x in qs]
    if rs[0].kind == 'scalar':
      return F('quantiles', [(x, r.t) for x, r in zip(qs, rs)],
               ctx=rs[0].ctx, flat='scalar', name=f.name)
    return rs[0].but(kind='quantiles', cols=[(x, r.t) for x, r in zip(
        qs, rs)])

  def m_unstack(self, f, recv, args, kwargs, fr, n):
    if f.kind == 'quantiles' and f.flat != 'scalar' and not args:
      return f.but(kind='df')
    raise Undecided('unstack')

  def m_corr(self, f, recv, args, kwargs, fr, n):
    return self.paired(f, 'CORR', args, kwargs)

  def m_cov(self, f, recv, args, kwargs, fr, n):
    d = self.const_or_undecided(kwargs.get('ddof', C(1)), 'ddof')
    return self.paired(f, {0: 'COVAR_POP', 1: 'COVAR_SAMP'}.get(d), args,
                       kwargs)

  def paired(self, f, name, args, kwargs):
    o = self.val(args[0])
    how = kwargs.get('method', C('pearson')).const()
    if o is None or o.kind != 'series' or not o.rows or (
        o.conds != f.conds or o.ctx != f.ctx or how is None or name is None):
      raise Undecided(str(name))
    if how[0] != 'pearson':
      name = 'CORR ' + str(how[0])
    return self.reduce(f, lambda g, t, ks: aggregate(
        g, name, sr.pair(t, o.t), ks))

  def m_cumsum(self, f, recv, args, kwargs, fr, n):
    if args or kwargs or f.kind not in ('group', 'df', 'series') or f.rows:
      raise Undecided('cumsum')
    if f.order is None:
      raise Undecided('cumsum in an unknown order')
    ks = f.ctx + (tuple(low(k) for k in f.keys) if f.kind == 'group' else ())
    order = f.order or tuple((('k', low(k)), 'ASC') for k in f.idx)
    order = tuple((t, d) for t, d in order if t not in [('k', k) for k in ks])
    cols = [(l, ('win', 'SUM', t, f.rel, frozenset(ks), order, CUM, EMPTY))
            for l, t in f.cols]
    return f.but(kind='series' if f.kind == 'series' or f.flat == 'one' else
                 'df', cols=cols, keys=())

  def m_nlargest(self, f, recv, args, kwargs, fr, n):
    k = self.const_or_undecided(args[0] if args else kwargs['n'], 'n')
    if f.kind == 'group':
      if f.flat != 'one':
        raise Undecided('nlargest')
      # keeps the keys as levels of the index
      return f.but(kind='series', nth=('largest', k, f.keys), name=f.cols[0][0],
                   keys=())
    if f.kind == 'series' and not f.rows:
      return f.but(nth=('largest', k, ()))
    raise Undecided('nlargest')

  def m_sort_values(self, f, recv, args, kwargs, fr, n):
    up = kwargs.get('ascending', C(True))
    if len(args) > 1:
      raise Undecided('sort_values')
    by = args[0] if args else kwargs.get('by')
    if set(kwargs) - {'by', 'ascending', 'inplace', 'kind'}:
      raise Undecided('options of sort_values')
    if f.kind == 'series':
      terms = [f.t]
    else:
      terms = []
      for x in self.strings(by):
        if any(l == x for l, _ in f.cols) or f.rows:
          terms.append(self.col(f, x))
        elif x in f.idx:
          terms.append(('k', low(x)))
        else:
          raise Undecided('sort by %r' % (x,))
    ups = self.exact_items(up) if up.const() is None else [up] * len(terms)
    if ups is None or len(ups) != len(terms):
      raise Undecided('ascending')
    ds = ['ASC' if self.truth(u) else 'DESC' for u in ups]
    g = f.but(order=tuple(zip(terms, ds)))
    if self.flag(kwargs, 'inplace'):
      self.put(recv, g)
      return NONE
    return g

  def m_sort_index(self, f, recv, args, kwargs, fr, n):
    if f.kind == 'df' or f.kind == 'series':
      g = f.but(order=None if kwargs or args else ())
      if self.flag(kwargs, 'inplace'):
        self.put(recv, g)
        return NONE
      return g
    raise Undecided('sort_index')

  def m_dropna(self, f, recv, args, kwargs, fr, n):
    if f.rows and 'subset' in kwargs and set(kwargs) == {'subset'}:
      return f.but(conds=f.conds | {('not', sr.null(self.col(f, x)))
                                    for x in self.strings(kwargs['subset'])})
    raise Undecided('dropna')

  def m_nth(self, f, recv, args, kwargs, fr, n):
    k = self.const_or_undecided(args[0], 'n')
    if f.kind != 'group' or not f.rows or not isinstance(k, int) or k < 0:
      raise Undecided('nth')
    ks = tuple(low(x) for x in f.keys)
    cols = [(l, ('k', low(l)) if l in f.keys else nth_term(f, t, k, ks))
            for l, t in f.cols]
    if not cols:
      raise Undecided('nth')
    return F('df', cols, idx=(), ctx=f.ctx, pend=f.keys)

  def m_set_index(self, f, recv, args, kwargs, fr, n):
    names = self.strings(args[0] if args else kwargs['keys'])
    if f.rows or set(names) != set(f.pend) or set(kwargs) - {'inplace'} or (
        f.idx):
      raise Undecided('set_index')
    for x in names:
      if self.col(f, x) != ('k', low(x)):
        raise Undecided('set_index')
    g = f.but(cols=[(l, t) for l, t in f.cols if l not in names],
              idx=tuple(names), pend=())
    if self.flag(kwargs, 'inplace'):
      self.put(recv, g)
      return NONE
    return g

  def m_apply(self, f, recv, args, kwargs, fr, n):
    if kwargs or len(args) != 1:
      raise Undecided('apply')
    if f.kind != 'group' or f.flat == 'one':
      raise Undecided('apply to %s' % f.kind)
    ks = f.keys
    g = f.but(kind='df', ctx=f.ctx + tuple(low(k) for k in ks), keys=(),
              idx=tuple(x for x in f.idx if x not in ks))
    r = self.call_value(n, fr, args[0], [self.mk(fr, n, g)], {}, None, None)
    o = self.number(r)
    if o.kind == 'scalar':
      return F('series', [(None, o.t)], idx=ks, ctx=f.ctx)
    if o.kind == 'df' and o.flat == 'row1':
      raise Undecided('a frame per group')
    raise Undecided('apply gives %s' % o.kind)

  def m_xs(self, f, recv, args, kwargs, fr, n):
    key = args[0] if args else kwargs['key']
    lv = kwargs.get('level')
    names = self.strings(lv) if lv is not None else None
    if names is None:
      names = list(f.idx)
    c = key.const()
    vals = [c[0]] if c is not None else [
        self.const_or_undecided(x, 'key') for x in self.exact_items(key) or [
            key]]
    if c is not None and isinstance(c[0], tuple):
      vals = list(c[0])
    if len(vals) != len(names) or any(x not in f.idx for x in names):
      raise Undecided('xs')
    rest = tuple(x for x in f.idx if x not in names)
    cols = []
    for l, t in f.cols:
      for k, v in zip(names, vals):
        t = st.pin(t, low(k), term_of(v))
      cols.append((l, t))
    if not rest:
      if f.kind == 'series':
        return F('scalar', [(None, cols[0][1])], ctx=f.ctx)
      return F('cols', cols, ctx=f.ctx)
    return f.but(cols=cols, idx=rest, cons=EMPTY)

  def m_reorder_levels(self, f, recv, args, kwargs, fr, n):
    names = self.strings(args[0] if args else kwargs['order'])
    if set(names) != set(f.idx) or len(names) != len(f.idx):
      raise Undecided('reorder_levels')
    return f.but(idx=tuple(names))

  def m_swaplevel(self, f, recv, args, kwargs, fr, n):
    raise Undecided('swaplevel')

  def m_droplevel(self, f, recv, args, kwargs, fr, n):
    names = self.strings(args[0] if args else kwargs['level'])
    if set(kwargs) - {'level'} or len(args) > 1:
      raise Undecided('droplevel')
    if names is None or any(x not in f.idx for x in names):
      raise Undecided('droplevel %r of %r %r' % (names, f.kind, f.idx))
    if f.kind == 'index':
      return f.but(idx=tuple(x for x in f.idx if x not in names))
    if not set(map(low, names)) <= set(f.ctx):
      if names:
        raise Undecided('droplevel of a level with several values')
    return f.but(idx=tuple(x for x in f.idx if x not in names), pend=())

  def m_startswith(self, f, recv, args, kwargs, fr, n):
    """The columns of the data are not named like temporary ones."""
    if f.kind != 'colname':
      raise Undecided('startswith')
    return C(False)

  def m_isin(self, f, recv, args, kwargs, fr, n):
    xs = self.exact_items(args[0])
    if f.kind != 'index' or not xs:
      raise Undecided('isin')
    alts = []
    for x in xs:
      c = x.const()
      if c is not None:
        vals = list(c[0]) if isinstance(c[0], tuple) else [c[0]]
      else:
        vals = [self.const_or_undecided(y, 'isin')
                for y in self.exact_items(x) or [x]]
      if len(vals) != len(f.idx):
        raise Undecided('isin')
      alts.append(st.conj(*[('cmp', '=', ('k', low(k)), term_of(v))
                            for k, v in zip(f.idx, vals)]))
    c = alts[0] if len(alts) == 1 else st.disj(*alts)
    return F('mask', [(None, ('cond', c))], idx=f.idx, ctx=f.ctx)

  def m_join(self, f, recv, args, kwargs, fr, n):
    o = self.val(args[0])
    if o is None or o.kind != 'df' or f.kind != 'df' or f.rows or o.rows or (
        not set(o.idx) <= set(f.idx)):
      raise Undecided('join')
    if set(kwargs) - {'rsuffix', 'lsuffix'}:
      raise Undecided('join')
    rs = self.const_or_undecided(kwargs.get('rsuffix', C('')), 'rsuffix')
    ls = self.const_or_undecided(kwargs.get('lsuffix', C('')), 'lsuffix')
    la, lb = [l for l, _ in f.cols], [l for l, _ in o.cols]
    cols = [(l + ls if l in lb else l, t) for l, t in f.cols]
    cols += [(l + rs if l in la else l, t) for l, t in o.cols]
    return f.but(cols=cols)

  def m_squeeze(self, f, recv, args, kwargs, fr, n):
    if f.kind == 'df' and not f.rows:
      if len(f.cols) != 1:
        return f.but()
      l, t = f.cols[0]
      return f.but(kind='series', cols=[(l, t)], name=l)
    if f.kind == 'series' and not f.idx and not f.rows:
      return F('scalar', [(None, f.t)], ctx=f.ctx)
    return f.but()

  def m_to_frame(self, f, recv, args, kwargs, fr, n):
    if f.kind == 'cols':
      return f.but(kind='df', flat='row')    # until .T
    if f.kind == 'series' and not args and not kwargs:
      return f.but(kind='df', cols=[(f.name, f.t)])
    raise Undecided('to_frame')

  def m_items(self, f, recv, args, kwargs, fr, n):
    if f.kind == 'indices':
      ks = [self.mk(fr, n, F('level', name=k)) for k in f.keys]
      key = ks[0] if len(ks) == 1 else self.alloc(fr, n, O(
          'tuple', items=ks), 'key')
      it = self.mk(fr, n, F('item', keys=tuple(low(k) for k in f.keys)))
      pair = self.alloc(fr, n, O('tuple', items=[key, it]), 'pair')
      return F('pairs', bound=(pair,))
    raise Undecided('items')

  def m_rename(self, f, recv, args, kwargs, fr, n):
    raise Undecided('rename')

  def m_assign(self, f, recv, args, kwargs, fr, n):
    if f.kind != 'df' or args:
      raise Undecided('assign')
    g = f
    for k, v in kwargs.items():
      w = self.val(v)
      x = w if w is not None else self.number(v)
      if x.kind == 'series' and (x.conds, x.rows, x.ctx) != (
          f.conds, f.rows, f.ctx):
        raise Undecided('assign')
      g = g.but(cols=[(l, u) for l, u in g.cols if l != k] + [(k, x.t)])
    return g

  def m_fillna(self, f, recv, args, kwargs, fr, n):
    raise Undecided('fillna')

  # ----------------------------------------------------- functions of modules
  def call_ext(self, n, fr, name, args, kwargs, star, dstar):
    vals = list(args) + list(kwargs.values())
    short = name.rsplit('.', 1)[-1]
    if name.startswith('pandas.') or any(
        self.has_frame(v) for v in vals):
      r = self.pandas(n, fr, name, short, args, kwargs, star, dstar)
      if r is not None:
        return self.mk(fr, n, r) if isinstance(r, F) else r
    return super().call_ext(n, fr, name, args, kwargs, star, dstar)

  def has_frame(self, v, depth=0):
    if depth > 3:
      return False
    for _, o in self.objs(v):
      if o.val is not None and o.val != 'columns':
        return True
      if o.kind in ('list', 'tuple') and isinstance(o.items, list) and any(
          self.has_frame(x, depth + 1) for x in o.items):
        return True
    return False

  def pandas(self, n, fr, name, short, args, kwargs, star, dstar):
    if name.startswith('builtins.'):
      return None
    if star is not None or dstar is not None:
      raise Undecided(name)
    if name in ('copy.copy', 'copy.deepcopy') and len(args) == 1 and (
        self.val(args[0]) is not None):
      return self.val(args[0]).but()
    if name == 'pandas.DataFrame':
      return self.data_frame(args, kwargs)
    if name == 'pandas.concat':
      return self.concat(args, kwargs)
    if name == 'pandas.Series':
      return self.series(args, kwargs)
    if name == 'pandas.Index':
      xs = self.exact_items(args[0])
      if xs and len(xs) == 1:
        f = self.val(xs[0])
        if f is not None and f.kind == 'level':
          return F('index', idx=(f.name,))
      raise Undecided('Index')
    if name == 'pandas.MultiIndex.from_tuples':
      xs = self.exact_items(args[0])
      names = self.strings(kwargs['names'])
      if xs and len(xs) == 1:
        fs = [self.val(x) for x in self.exact_items(xs[0]) or []]
        if [f and f.name for f in fs] == names:
          return F('index', idx=tuple(names))
      raise Undecided('MultiIndex')
    if name in ('numpy.sqrt', 'numpy.log', 'numpy.abs', 'numpy.absolute',
                'numpy.exp'):
      f = self.number(args[0])
      fn = {'sqrt': lambda t: op('sqrt', t),
            'log': lambda t: st.fn('LOG', t),
            'exp': lambda t: st.fn('EXP', t)}.get(
                short, lambda t: st.fn('ABS', t))
      return f.but(cols=[(l, fn(t)) for l, t in f.cols])
    if name == 'numpy.interp':
      return self.interp(args)
    if self.has_frame(self.alloc(fr, n, O('list', items=list(args) + list(
        kwargs.values())), 'args')):
      raise Undecided(name)
    return None

  def interp(self, args):
    xp, fp = self.val(args[1]), self.val(args[2])
    if xp is None or fp is None or xp.kind != 'series' or (
        fp.kind != 'series' or xp.ctx != fp.ctx or xp.idx != fp.idx or
        xp.pend != fp.pend):
      raise Undecided('interp')
    c = args[0].const()
    qs = [c[0]] if c is not None else [
        self.const_or_undecided(x, 'q') for x in self.exact_items(
            args[0]) or [args[0]]]
    rel = st.groups(xp.ctx + tuple(map(low, xp.idx + xp.pend)), xp.cons)
    out = [(None, ('agg', 'INTERP', ('fn', 'ARGS', (term_of(q), xp.t, fp.t)),
                   EMPTY, frozenset(xp.ctx), rel, EMPTY, ())) for q in qs]
    if c is not None:
      return F('scalar', out, ctx=xp.ctx)
    return F('list', out, ctx=xp.ctx)

  def data_frame(self, args, kwargs):
    if set(kwargs) - {'columns'}:
      raise Undecided('DataFrame')
    cols = None
    if 'columns' in kwargs:
      cols = self.strings(kwargs['columns'])
    d = args[0]
    f = self.val(d)
    if f is not None:
      if cols is not None:
        raise Undecided('DataFrame')
      if f.kind == 'series' and not f.rows:
        return f.but(kind='df', cols=[(f.name, f.t)])
      if f.kind == 'df':
        return f.but()
      if f.kind == 'quantiles':
        return f.but()
      raise Undecided('DataFrame of %s' % f.kind)
    for _, o in self.objs(d):
      if o.kind == 'dict' and isinstance(o.items, dict) and cols is None:
        out, ctx = [], ()
        for k, v in o.items.items():
          xs = self.exact_items(v)
          if not xs or len(xs) != 1:
            raise Undecided('DataFrame')
          g = self.number(xs[0])
          if g.kind != 'scalar':
            raise Undecided('DataFrame')
          out.append((k, g.t))
          ctx = ctx or g.ctx
        return F('df', out, ctx=ctx)
    xs = self.exact_items(d)
    if xs and len(xs) == 1:
      g = self.val(xs[0])
      if g is None:
        ys = self.exact_items(xs[0])
        gs = [self.number(y) for y in ys or []]
        if ys and cols and len(cols) == len(gs) and all(
            y.kind == 'scalar' for y in gs):
          return F('df', [(c, y.t) for c, y in zip(cols, gs)], ctx=gs[0].ctx)
      elif g.kind == 'cols' and (cols is None or cols == [
          l for l, _ in g.cols]):
        return g.but(kind='df')
      elif g.kind == 'list' and cols and len(cols) == len(g.cols):
        return g.but(kind='df', cols=[(c, t) for c, (_, t) in zip(
            cols, g.cols)])
    raise Undecided('DataFrame')

  def series(self, args, kwargs):
    xs = self.exact_items(args[0])
    i = self.val(kwargs['index']) if 'index' in kwargs else None
    if xs and len(xs) == 1 and i is not None and i.kind == 'index':
      g = self.number(xs[0])
      if g.kind == 'scalar' and set(map(low, i.idx)) <= set(g.ctx):
        return F('series', [(None, g.t)], idx=i.idx, ctx=tuple(
            x for x in g.ctx if x not in set(map(low, i.idx))))
    raise Undecided('Series')

  def concat(self, args, kwargs):
    xs = self.exact_items(args[0])
    if not xs:
      raise Undecided('concat 1')
    fs = [self.val(x) for x in xs]
    if None in fs:
      raise Undecided('concat 2')
    axis = kwargs.get('axis', C(0)).const()
    if 'keys' in kwargs:
      names = self.strings(kwargs['names']) if 'names' in kwargs else None
      ks = self.exact_items(kwargs['keys'])
      if len(fs) == 1 and names and ks and len(ks) == 1 and axis and (
          axis[0] == 0):
        f = fs[0]
        inner = [low(x) for x in names]
        if set(inner) <= set(f.ctx) and not f.pend and f.kind in (
            'df', 'series'):
          ctx = tuple(x for x in f.ctx if x not in inner)
          return f.but(idx=tuple(names) + f.idx, ctx=ctx, order=None)
      raise Undecided('concat 3')
    if axis is None or axis[0] not in (1, 'columns'):
      if len(fs) == 1:
        return fs[0].but()
      raise Undecided('concat 4')
    cols, cons = [], EMPTY
    for f in fs:
      if f.rows or f.kind not in ('df', 'series') or set(f.idx) != set(
          fs[0].idx) or f.ctx != fs[0].ctx:
        raise Undecided('concat 5')
      cols += [(f.name, f.t)] if f.kind == 'series' else f.cols
      cons |= f.cons
    if any(f.cons != fs[0].cons for f in fs):
      raise Undecided('concat of different rows')
    return F('df', cols, idx=fs[0].idx, ctx=fs[0].ctx, cons=cons,
             order=fs[0].order if len(fs) == 1 else None)

  def same_rest(self, firsts, ex):
    seen = {}
    for k, x in zip(firsts, ex):
      fs = [self.val(y) for y in self.exact_items(x)[1:]]
      if len(fs) != 1 or fs[0] is None:
        return False
      t = (fs[0].kind, fs[0].cols, fs[0].cons, fs[0].idx)
      if repr(seen.setdefault(k[0], t)) != repr(t):
        return False
    return True

  def builtin(self, n, fr, name, a0, args, kwargs, star, vals, deps):
    f = self.val(a0) if args else None
    if f is not None:
      if name == 'len':
        if f.kind == 'index':
          raise Undecided('len')
        if f.kind == 'level':
          return self.mk(fr, n, F('scalar', [(None, ('fn', 'LEN', ()))]))
        if f.rows:
          return self.mk(fr, n, F('scalar', [(None, aggregate(
              f, 'COUNT', ('s', '*'), ()))], ctx=f.ctx))
        raise Undecided('len')
      if f.kind == 'colname' and name == 'str':
        return a0
      if name in ('float', 'int', 'round', 'abs', 'str', 'sum', 'min', 'max'):
        if name == 'float':
          return a0
        raise Undecided(name)
      if name == 'next':
        raise Undecided(name)
    return super().builtin(n, fr, name, a0, args, kwargs, star, vals, deps)


KNOWN_ERRORS = ('ValueError', 'NotImplementedError', 'KeyError', 'TypeError',
                'AttributeError', 'IndexError')


def full(s):
  return isinstance(s, ast.Slice) and s.lower is None and s.upper is None


def cond(t):
  if t[0] != 'cond':
    raise Undecided('not a condition')
  return t[1]


def power(a, b):
  if b == num(2) and a[0] == 'sqrt':
    return a[1]
  if b == num(2):
    return op('*', a, a)
  if b == num('0.5'):
    return op('sqrt', a)
  return op('pow', a, b)


def nth_term(f, t, k, ks):
  if not f.order:
    raise Undecided('nth of unsorted rows')
  isnull = ('not', sr.null(t))
  extra = ['NULLS IGNORE'] if isnull in f.conds else []
  for o, d in f.order:
    extra += ['ORDER', o, d]
  extra += ['LIMIT', num(k + 1)]
  return st.fn('INDEX', aggregate(f, 'ARRAY_AGG', t, ks, tuple(extra)),
               st.fn('SAFE_OFFSET', num(k)))


def top_sum(f, t, ks):
  how, k, keys = f.nth
  del how
  if set(map(low, keys)) - set(f.ctx + tuple(ks)) or (
      set(ks) - set(map(low, keys))):
    raise Undecided('nlargest in other groups')
  arr = st.agg('ARRAY_AGG', t, EMPTY, f.ctx + tuple(ks), f.rel,
               ('ORDER', t, 'DESC', 'LIMIT', num(k)))
  key = 'element of %d' % st.norm(arr)
  return st.fn('QUERY', st.agg('SUM', ('k', key), EMPTY, (), st.groups([key])))
